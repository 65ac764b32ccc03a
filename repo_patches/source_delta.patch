From 42debf9ed3521bf54cc675ce086a55647b1b6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 01/73] fix: do not read past the end of the message when
 expanding a name

A name whose last label, or the first octet of a compression pointer, ends
exactly at the end of the message made wdns_unpack_name() read one octet
beyond it.
---
 wdns/unpack_name.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wdns/unpack_name.c b/wdns/unpack_name.c
index 2644d69..ded15b9 100644
--- a/wdns/unpack_name.c
+++ b/wdns/unpack_name.c
@@ -41,11 +41,16 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 	if (p >= eop || src >= eop || src < p)
 		return (wdns_res_out_of_bounds);
 
-	while ((c = *src++) != 0) {
+	for (;;) {
+		if (src >= eop)
+			return (wdns_res_out_of_bounds);
+		c = *src++;
+		if (c == 0)
+			break;
 		if (c >= 192) {
 			uint16_t offset;
 
-			if (src > eop)
+			if (src >= eop)
 				return (wdns_res_out_of_bounds);
 
 			/* offset is the lower 14 bits of the 2 octet sequence */
@@ -53,7 +58,7 @@ wdns_unpack_name(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 
 			cptr = p + offset;
 
-			if (cptr > eop)
+			if (cptr >= eop)
 				return (wdns_res_invalid_compression_pointer);
 
 			if (cptr == src - 1 && (*(src - 1) == 0)) {
-- 
2.43.0


From 329c9dfcfece9963312dfd92486f2849daf52c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 02/73] fix: do not read past the end of the buffer when
 copying a name

An unterminated name ending exactly at eop made wdns_copy_uname() read one
octet beyond it.
---
 wdns/copy_uname.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wdns/copy_uname.c b/wdns/copy_uname.c
index 586fc24..ed971ab 100644
--- a/wdns/copy_uname.c
+++ b/wdns/copy_uname.c
@@ -40,7 +40,12 @@ wdns_copy_uname(const uint8_t *p, const uint8_t *eop, const uint8_t *src,
 	if (p >= eop || src >= eop || src < p)
 		return (wdns_res_out_of_bounds);
 
-	while ((c = *src++) != 0) {
+	for (;;) {
+		if (src >= eop)
+			return (wdns_res_out_of_bounds);
+		c = *src++;
+		if (c == 0)
+			break;
 		if (c <= 63) {
 			total_len++;
 			if (total_len >= WDNS_MAXLEN_NAME)
-- 
2.43.0


From f27863d3ca7baeff93c84e2e97ee401b49745799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 03/73] fix: do not read past the end of the data when skipping
 a name

wdns_skip_name() examined the octet at eod, which is beyond the data.
---
 wdns/skip_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/skip_name.c b/wdns/skip_name.c
index 09e5148..d573c98 100644
--- a/wdns/skip_name.c
+++ b/wdns/skip_name.c
@@ -33,7 +33,7 @@ wdns_skip_name(const uint8_t **data, const uint8_t *eod)
 	size_t bytes_skipped;
 	uint8_t c;
 
-	while (src <= eod && (c = *src) != 0) {
+	while (src < eod && (c = *src) != 0) {
 		if (c >= 192) {
 			/* compression pointers occupy two octets */
 			src++;
-- 
2.43.0


From 010c7fd3d0a34a135ccda0bbe85fcff799554628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 04/73] fix: reject a name without terminator when measuring it

When the last label ended exactly at eop, the length counter wrapped around
and wdns_len_uname() reported success with a length one larger than the
buffer.
---
 wdns/len_uname.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wdns/len_uname.c b/wdns/len_uname.c
index 30921ef..8cd50c4 100644
--- a/wdns/len_uname.c
+++ b/wdns/len_uname.c
@@ -36,8 +36,12 @@ wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
 	if (p >= eop)
 		return (wdns_res_overflow);
 
-	while (len-- != 0) {
+	for (;;) {
 		uint8_t oclen;
+
+		if (len == 0)
+			return (wdns_res_overflow);
+		len--;
 		WDNS_BUF_GET8(oclen, p);
 
 		if (oclen > 63 || oclen > len)
-- 
2.43.0


From 152a79e73c852775081e226b56d0794191f28629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 05/73] fix: do not read past the end of an unterminated name
 when printing it

wdns_domain_to_str() examined the octet at src + src_len when the name was
empty or ended without the root label, as the owner name of a deserialized
RRset may.
---
 wdns/domain_to_str.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wdns/domain_to_str.c b/wdns/domain_to_str.c
index 3a0e593..24e8825 100644
--- a/wdns/domain_to_str.c
+++ b/wdns/domain_to_str.c
@@ -33,8 +33,7 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 
 	assert(src != NULL);
 
-	oclen = *src;
-	while (bytes_remaining > 0 && oclen != 0) {
+	while (bytes_remaining > 0 && (oclen = *src) != 0) {
 		src++;
 		bytes_remaining--;
 
@@ -55,7 +54,6 @@ wdns_domain_to_str(const uint8_t *src, size_t src_len, char *dst)
 			}
 		}
 		*dst++ = '.';
-		oclen = *src;
 	}
 	if (bytes_read == 0)
 		*dst++ = '.';
-- 
2.43.0


From a1445a3b2d6edf27581d95b070d393ebe9ecab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 06/73] fix: do not read past the end of a name when counting
 its labels

wdns_count_labels() examined the octet behind a name that is empty or has no
terminator, and wdns_is_subdomain() with it.
---
 wdns/count_labels.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/count_labels.c b/wdns/count_labels.c
index 0b5238a..3a522b1 100644
--- a/wdns/count_labels.c
+++ b/wdns/count_labels.c
@@ -33,11 +33,14 @@ wdns_count_labels(wdns_name_t *name, size_t *nlabels)
 	*nlabels = 0;
 	data = name->data;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	while ((c = *data++) != 0) {
 		if (c <= 63) {
 			*nlabels += 1;
 			data += c;
-			if (data - name->data > name->len)
+			if (data - name->data >= name->len)
 				return (wdns_res_name_overflow);
 		} else {
 			return (wdns_res_invalid_length_octet);
-- 
2.43.0


From 64ca1609dc172b7e79ddc6c4811c22d2856a42fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 07/73] fix: reject malformed names when reversing them

A name without terminator made wdns_reverse_name() read behind it and write
in front of the output buffer; reserved length octets were taken for lengths.
---
 wdns/reverse_name.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/wdns/reverse_name.c b/wdns/reverse_name.c
index fac3019..9d9ec11 100644
--- a/wdns/reverse_name.c
+++ b/wdns/reverse_name.c
@@ -20,14 +20,21 @@ wdns_reverse_name(const uint8_t *name, size_t len_name, uint8_t *rev_name) {
 	size_t len;
 	size_t total_len = 0;
 
+	if (len_name == 0) {
+		return (wdns_res_out_of_bounds);
+	}
+
 	p = name;
 	memset(rev_name, 0, len_name);
 	rev_name += len_name - 1;
 
 	while ((len = *p) != '\x00') {
+		if (len > 63) {
+			return (wdns_res_invalid_length_octet);
+		}
 		len += 1;
 		total_len += len;
-		if (total_len > len_name) {
+		if (total_len >= len_name) {
 			return (wdns_res_out_of_bounds);
 		}
 		rev_name -= len;
-- 
2.43.0


From fa88bc0a65deae519abedec71baca11f76a4caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 08/73] fix: do not read an empty name when chopping its first
 label

---
 wdns/left_chop.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/left_chop.c b/wdns/left_chop.c
index 5da4de0..39d1fbe 100644
--- a/wdns/left_chop.c
+++ b/wdns/left_chop.c
@@ -19,6 +19,9 @@ wdns_left_chop(wdns_name_t *name, wdns_name_t *chop)
 {
 	uint8_t oclen;
 
+	if (name->len == 0)
+		return (wdns_res_name_overflow);
+
 	oclen = name->data[0];
 
 	if (oclen == 0 && name->len == 1) {
-- 
2.43.0


From b9fc99b9faaa0bc97aedc6550c19012dcf2ac3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 09/73] fix: reject a name text ending in a lone backslash

The character after the backslash was taken to be the terminator, and the
scan went on behind the end of the string.
---
 wdns/str_to_name.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 5afb237..9a77f4a 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -74,7 +74,7 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			name->len++;
 		} else if (c == '\\' && !is_digit(*p)) {
 			/* an escaped character */
-			if (slen <= 0)
+			if (slen <= 1)
 				goto out;
 			*data++ = *p;
 			name->len++;
-- 
2.43.0


From 54e39315e0e6ba7b081baf1495aed1792798b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 10/73] fix: reject labels of more than 63 octets in a name
 text

They were written with length octets that are reserved or mean compression
pointers in wire format.
---
 wdns/str_to_name.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wdns/str_to_name.c b/wdns/str_to_name.c
index 9a77f4a..d5d9772 100644
--- a/wdns/str_to_name.c
+++ b/wdns/str_to_name.c
@@ -56,6 +56,10 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 				goto out;
 			}
 			*oclen = --label_len;
+			if (label_len > 63) {
+				res = wdns_res_invalid_length_octet;
+				goto out;
+			}
 			*data++ = '\0';
 			name->len++;
 			break;
@@ -113,6 +117,10 @@ _wdns_str_to_name(const char *str, wdns_name_t *name, bool downcase)
 			*oclen = --label_len;
 			if (label_len == 0)
 				goto out;
+			if (label_len > 63) {
+				res = wdns_res_invalid_length_octet;
+				goto out;
+			}
 			oclen = data++;
 			name->len++;
 			if (slen == 1) {
-- 
2.43.0


From bf73a6e30761187153d29917dc7150464f7c8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 11/73] fix: place the EDNS extended response code above the
 header's four bits

RFC 6891 section 6.1.3: the extended RCODE forms the upper eight bits of a
12-bit value. It was shifted by eight bits instead of four, so BADVERS was
reported as 256.
---
 wdns/parse_edns.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/parse_edns.c b/wdns/parse_edns.c
index 69fad66..a5233fb 100644
--- a/wdns/parse_edns.c
+++ b/wdns/parse_edns.c
@@ -24,7 +24,7 @@ _wdns_parse_edns(wdns_message_t *m, wdns_rr_t *rr)
 	m->edns.options = rr->rdata;
 	rr->rdata = NULL;
 
-	m->rcode |= (rr->rrttl >> 16) & 0xFF00;
+	m->rcode |= (rr->rrttl >> 20) & 0xFF0;
 
 	wdns_clear_rr(rr);
 
-- 
2.43.0


From 2d49c107e42f013742e1e87f9c5457a60125723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 12/73] fix: compute the length of a service parameter without
 wrapping

With a value length of 65532 and more the sum wrapped around 16 bits: the
bounds check passed, validation read behind the message, and a total of zero
made the parser loop forever.
---
 wdns/parse_rdata.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 8d249e0..e77ae32 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -267,7 +267,8 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 				 * SVCB or HTTPS message, parsed per section
 				 * 2.2 of draft-ietf-dnsop-svcb-https-08.
 				 */
-				uint16_t key, val_len, kv_len;
+				uint16_t key, val_len;
+				uint32_t kv_len;
 
 				while (src_bytes > 0) {
 					if (src_bytes < (int)(sizeof(key) +
-- 
2.43.0


From 3a867daef33f8619a0b4614779879c0cfda0351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 13/73] fix: reject record data that exceeds 65535 octets once
 expanded

The length was truncated to 16 bits silently.
---
 wdns/parse_rdata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index e77ae32..04666f5 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -330,6 +330,11 @@ _wdns_parse_rdata(wdns_rr_t *rr, const uint8_t *p, const uint8_t *eop,
 
 	/* load rr->rdata */
 	len = ubuf_size(u);
+	if (len > UINT16_MAX) {
+		/* the expanded names do not fit */
+		res = wdns_res_overflow;
+		goto parse_error;
+	}
 	rr->rdata = my_malloc(sizeof(wdns_rdata_t) + len);
 	rr->rdata->len = len;
 	memcpy(rr->rdata->data, ubuf_cstr(u), len);
-- 
2.43.0


From 64ef41f92119d286443d039e14ffb01f83f7e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 14/73] fix: treat empty service parameter values as malformed
 where a value is required

---
 wdns/parse_rdata.c   |  6 +++---
 wdns/rdata_to_ubuf.c | 12 ++++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/wdns/parse_rdata.c b/wdns/parse_rdata.c
index 04666f5..dac4a53 100644
--- a/wdns/parse_rdata.c
+++ b/wdns/parse_rdata.c
@@ -28,7 +28,7 @@ svcparam_key_validate(uint16_t key, uint16_t val_len, const uint8_t *val)
 
 	switch (key) {
 	case spr_mandatory:
-		if ((val_len % 2) != 0) {
+		if (val_len == 0 || (val_len % 2) != 0) {
 			res = false;
 		}
 		break;
@@ -76,13 +76,13 @@ svcparam_key_validate(uint16_t key, uint16_t val_len, const uint8_t *val)
 		break;
 
 	case spr_ipv4hint:
-		if ((val_len % 4) != 0) {
+		if (val_len == 0 || (val_len % 4) != 0) {
 			res = false;
 		}
 		break;
 
 	case spr_ipv6hint:
-		if ((val_len % 16) != 0) {
+		if (val_len == 0 || (val_len % 16) != 0) {
 			res = false;
 		}
 		break;
diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index da20ecd..2849877 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -97,6 +97,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 
 	switch (key) {
 	case spr_mandatory:
+		if (len == 0) {
+			return (wdns_res_parse_error);
+		}
 		while ((ptr - src) < len) {
 			char key_str[16] = { 0 };
 
@@ -168,6 +171,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 	 * network byte order. An empty list of addresses is invalid.
 	 */
 	case spr_ipv4hint:
+		if (len == 0) {
+			return (wdns_res_parse_error);
+		}
 		while ((ptr - src) < len) {
 			char pres[INET_ADDRSTRLEN] = { 0 };
 
@@ -192,6 +198,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 		break;
 
 	case spr_ipv6hint:
+		if (len == 0) {
+			return (wdns_res_parse_error);
+		}
 		while ((ptr - src) < len) {
 			char pres[INET6_ADDRSTRLEN] = { 0 };
 
@@ -225,6 +234,9 @@ svcparam_to_str(uint16_t key, const uint8_t *src, uint16_t len, ubuf *u)
 	 * presentation format.
 	 */
 	case spr_alpn:
+		if (len == 0) {
+			return (wdns_res_parse_error);
+		}
 		ubuf_add(u, '"');
 
 		while ((ptr - src) < len) {
-- 
2.43.0


From b2bdc953e5b8f46bf3e5cd4e8ed65379e32773b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 15/73] fix: flag malformed type bitmaps in the text of record
 data

---
 wdns/rdata_to_ubuf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index 2849877..2e4823c 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -681,6 +681,8 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 				window_block = *src;
 				bitmap_len = *(src + 1);
 				bytes_consumed(2);
+				if (bitmap_len < 1 || bitmap_len > 32)
+					goto err;
 				bytes_required(bitmap_len);
 				lo = 0;
 				for (int i = 0; i < bitmap_len; i++) {
@@ -702,6 +704,8 @@ _wdns_rdata_to_ubuf(ubuf *u, const uint8_t *rdata, uint16_t rdlen,
 				}
 				bytes_consumed(bitmap_len);
 			}
+			if (src_bytes > 0)
+				goto err;
 			break;
 		}
 
-- 
2.43.0


From c8b43a0802928023142559fa937e808d0add6083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 16/73] fix: require two hexadecimal digits per octet in record
 data text

---
 wdns/str_to_rdata_ubuf.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index be6cb30..ce8f0c6 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -17,6 +17,18 @@
 
 VECTOR_GENERATE(u16buf, uint16_t)
 
+/*
+ * hex_to_octet() reads exactly two hexadecimal digits.
+ */
+static bool
+hex_to_octet(const char *str, uint8_t *c)
+{
+	if (!isxdigit((unsigned char)str[0]) || !isxdigit((unsigned char)str[1])) {
+		return (false);
+	}
+	return (sscanf(str, "%02hhx", c) == 1);
+}
+
 static size_t
 rdata_from_str_string(const uint8_t *src, ubuf *u) {
 	const uint8_t *ptr = src;
@@ -400,11 +412,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				continue;
 			}
 
-			if (*(str+1) == 0) {
-				res = wdns_res_parse_error;
-				goto err;
-			}
-			if (!sscanf(str, "%02hhx", &c)) {
+			if (!hex_to_octet(str, &c)) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
@@ -473,11 +481,13 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		case rdf_bytes:
 			while (*str) {
 				uint8_t c;
-				if (*(str+1) == 0) {
-					res = wdns_res_parse_error;
-					goto err;
+
+				if (isspace(*str)) {
+					str++;
+					continue;
 				}
-				if (!sscanf(str, "%02hhx", &c)) {
+
+				if (!hex_to_octet(str, &c)) {
 					res = wdns_res_parse_error;
 					goto err;
 				}
@@ -614,7 +624,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				while (oclen > 0) {
 					uint8_t c;
-					if (!sscanf(str, "%02hhx", &c)) {
+					if (!hex_to_octet(str, &c)) {
 						res = wdns_res_parse_error;
 						goto err;
 					}
-- 
2.43.0


From 27d42776150817771b57d5d976b2e16cf50e2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 17/73] fix: check the length in generic record data text

---
 wdns/str_to_rdata_ubuf.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index ce8f0c6..3c889f0 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -396,8 +396,13 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			ptr++;
 		}
 
-		uint16_t rdlen;
-		if (sscanf(str, "%hu", &rdlen) == 0) {
+		unsigned long rdlen;
+		if (ptr == str) {
+			res = wdns_res_parse_error;
+			goto err;
+		}
+		rdlen = strtoul(str, NULL, 10);
+		if (rdlen > UINT16_MAX) {
 			res = wdns_res_parse_error;
 			goto err;
 		}
-- 
2.43.0


From 772ca9ffc452da7de1fa5bf489363ae89c892795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 18/73] fix: reject A6 prefix lengths that wrap around

---
 wdns/str_to_rdata_ubuf.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 3c889f0..ec3b9c3 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -523,6 +523,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		}
 
 		case rdf_ipv6prefix: {
+			unsigned long s_val;
 			uint8_t prefix_len;
 			const char *end = strpbrk(str, " \t\r\n");
 			const char *ptr = str;
@@ -538,15 +539,12 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 			}
 
-			if (sscanf(str, "%hhu", &prefix_len) == 0) {
-				res = wdns_res_parse_error;
-				goto err;
-			}
-
-			if (prefix_len > 128) {
+			s_val = strtoul(str, NULL, 10);
+			if (s_val > 128) {
 				res = wdns_res_parse_error;
 				goto err;
 			}
+			prefix_len = (uint8_t)s_val;
 
 			ubuf_append(u, &prefix_len, sizeof(prefix_len));
 
-- 
2.43.0


From 3b1df444b783a1f6e07786de196936ab0cc3098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 19/73] fix: count every alpn id and reject empty or over-long
 ones in text

---
 wdns/str_to_rdata_ubuf.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index ec3b9c3..3372579 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -285,11 +285,18 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 	 */
 	case spr_alpn: {
 		size_t i, offset;
+		size_t oclen_val;
 		uint8_t oclen;
 
+		/* at least one "alpn-id" is required */
+		if (len_val == 0) {
+			return (wdns_res_parse_error);
+		}
+
 		/* append a 'length' byte to be updated later */
 		offset = ubuf_size(u);
 		oclen = 0;
+		oclen_val = 0;
 		ubuf_append(u, &oclen, sizeof (uint8_t));
 
 		/*
@@ -312,27 +319,31 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 				}
 
 				ubuf_append(u, (uint8_t *)&c, 1);
-				oclen++;
+				oclen_val++;
 			} else if (c == ',') {
 				/*
 				 * An unescaped comma separates two values.
 				 */
-				ubuf_data(u)[offset] = oclen;
-				val_len += oclen + sizeof (uint8_t);
+				if (oclen_val > UINT8_MAX) {
+					return (wdns_res_parse_error);
+				}
+				ubuf_data(u)[offset] = (uint8_t)oclen_val;
+				val_len += oclen_val + sizeof (uint8_t);
 
 				offset = ubuf_size(u);
-				oclen = 0;
+				oclen_val = 0;
 				ubuf_append(u, &oclen, sizeof (uint8_t));
 			} else {
 				ubuf_append(u, (uint8_t *)&c, 1);
-				oclen++;
+				oclen_val++;
 			}
 		}
 
-		if (oclen != 0) {
-			ubuf_data(u)[offset] = oclen;
-			val_len += oclen + sizeof (uint8_t);
+		if (oclen_val > UINT8_MAX) {
+			return (wdns_res_parse_error);
 		}
+		ubuf_data(u)[offset] = (uint8_t)oclen_val;
+		val_len += oclen_val + sizeof (uint8_t);
 
 		break;
 	}
-- 
2.43.0


From 705a1388de499a765e837fc962ed4c4c00596da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 20/73] fix: accept ech service parameters of any length

---
 wdns/str_to_rdata_ubuf.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 3372579..49fd311 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -240,9 +240,6 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		}
 
 		tok_len = strlen(tok);
-		if (tok_len > UINT8_MAX) {
-			return (wdns_res_parse_error);
-		}
 		val_len = base64_str_to_ubuf(tok, tok_len, u);
 		break;
 
-- 
2.43.0


From ab7dcbc2f4a50736e793c64d077f64b35e787330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 21/73] fix: read the type covered TYPE0 back as it is printed

---
 wdns/str_to_rdata_ubuf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 49fd311..c54209f 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -934,6 +934,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 		case rdf_rrtype: {
 			char * s_rrtype;
 			uint16_t my_rrtype;
+			bool is_type0;
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
@@ -942,9 +943,10 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				s_rrtype = strdup(str);
 			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
+			is_type0 = (strcasecmp(s_rrtype, "TYPE0") == 0);
 			free(s_rrtype);
 
-			if (my_rrtype > 0) {
+			if (my_rrtype > 0 || is_type0) {
 				ubuf_append(u, (const uint8_t*)&my_rrtype, sizeof(my_rrtype));
 			} else {
 				res = wdns_res_parse_error;
-- 
2.43.0


From 056c888498c4319d6a0339ea76c044a89fb06171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 22/73] fix: reject record data text of more than 65535 octets

---
 wdns/rdata_to_str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/rdata_to_str.c b/wdns/rdata_to_str.c
index 351f883..c4505ae 100644
--- a/wdns/rdata_to_str.c
+++ b/wdns/rdata_to_str.c
@@ -38,6 +38,10 @@ wdns_str_to_rdata(const char * str, uint16_t rrtype, uint16_t rrclass,
 
 	u = ubuf_new();
 	res = _wdns_str_to_rdata_ubuf(u, str, rrtype, rrclass);
+	if (res == wdns_res_success && ubuf_size(u) > UINT16_MAX) {
+		/* does not fit into a resource record */
+		res = wdns_res_overflow;
+	}
 	if (res == wdns_res_success) {
 		ubuf_detach(u, (uint8_t **) rdata, rdlen);
 	}
-- 
2.43.0


From d31ce9b67d2599760b8b13ccb0c7ef346f9117b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 23/73] fix: walk embedded names by their labels when folding
 record data

---
 wdns/downcase_rdata.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index 3e4e275..f6edb41 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -28,6 +28,7 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 	const record_descr *descr;
 	const uint8_t *t;
 	size_t bytes_remaining = rdata->len;
+	size_t len;
 	uint8_t oclen;
 	uint8_t *p = rdata->data;
 
@@ -79,11 +80,10 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 			switch (*t) {
 			case rdf_name:
 			case rdf_uname:
-				while (bytes_remaining-- != 0) {
-					if (*p == 0) {
-						p++;
-						break;
-					}
+				if (wdns_len_uname(p, p + bytes_remaining, &len) != wdns_res_success)
+					return (wdns_res_parse_error);
+				bytes_remaining -= len;
+				while (len-- != 0) {
 					if (*p >= 'A' && *p <= 'Z')
 						*p |= 0x20;
 					p++;
-- 
2.43.0


From bcf2773a7451df29ae2a88cb17766a5842fb5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 24/73] fix: compute the length of an A6 address suffix when
 folding record data

---
 wdns/downcase_rdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wdns/downcase_rdata.c b/wdns/downcase_rdata.c
index f6edb41..14f0c7a 100644
--- a/wdns/downcase_rdata.c
+++ b/wdns/downcase_rdata.c
@@ -132,8 +132,10 @@ wdns_downcase_rdata(wdns_rdata_t *rdata, uint16_t rrtype, uint16_t rrclass)
 
 			case rdf_ipv6prefix:
 				oclen = *p;
-				if (oclen > 16U)
+				if (oclen > 128U)
 					return (wdns_res_parse_error);
+				/* the octets needed for the address suffix */
+				oclen = (128U - oclen + 7U) / 8U;
 				advance_bytes(oclen + 1U);
 				break;
 
-- 
2.43.0


From 776ba68ec714d26648279c65adcd3b0fd2d78ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 25/73] fix: do not dereference the missing data of a question
 RRset when printing it

---
 wdns/rrset_to_ubuf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index c12b426..ece16fb 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -31,7 +31,8 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.rrclass = rrset->rrclass;
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
-		rr.rdata = rrset->rdatas[i];
+		/* question RRsets carry no data */
+		rr.rdata = (rrset->rdatas != NULL) ? rrset->rdatas[i] : NULL;
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From 6acfb34fe66d8537e17cae05eeb3d28b6d8a6e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 26/73] fix: do not read past the base64 decoding table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From 42dfe4350649cf1694be870e1deff5b78e534633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 27/73] fix: use a constant base32 decoding table

---
 libmy/b32_decode.c | 63 +++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/libmy/b32_decode.c b/libmy/b32_decode.c
index 0b7790b..d95b615 100644
--- a/libmy/b32_decode.c
+++ b/libmy/b32_decode.c
@@ -74,33 +74,48 @@ cast_to_constpointer(const void *p)
         return p;
 }
 
-static inline bool
-is_ascii_lower(int c)
-{
-        return c >= 97 && c <= 122;             /* a-z */
-}
-
-static inline int
-ascii_toupper(int c)
-{
-        return is_ascii_lower(c) ? c - 32 : c;
-}
-
 static inline size_t
 ptr_diff(const void *a, const void *b)
 {
         return (const char *) a - (const char *) b;
 }
 
-static const char base32_alphabet[32] = {
-	'0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
-	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J',
-	'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T',
-	'U', 'V'
+/* The value of each base32hex digit in either case, 0xff for any other octet. */
+static const unsigned char base32_map[256] = {
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07,
+	0x08, 0x09, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10,
+	0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18,
+	0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10,
+	0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18,
+	0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e, 0x1f, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
 };
 
-static char base32_map[(size_t) (unsigned char) -1 + 1];
-
 /**
  * Decode a base32 encoding of `len' bytes of `data' into the buffer `dst'.
  *
@@ -121,16 +136,6 @@ base32_decode(void *dst, size_t size, const char *data, size_t len)
 	int pad = 0;
 	size_t i, si;
 
-	if (0 == base32_map[0]) {
-		for (i = 0; i < G_N_ELEMENTS(base32_map); i++) {
-			const char *x;
-
-			x = memchr(base32_alphabet, ascii_toupper(i),
-					   sizeof base32_alphabet);
-			base32_map[i] = x ? (x - base32_alphabet) : (unsigned char) -1;
-		}
-	}
-
 	ZERO(&s);
 	si = 0;
 	i = 0;
-- 
2.43.0


From c263ae92340b39a062eeb02a96b773263ac762b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 28/73] fix: compute IPv4 prefix bounds for prefix length 0

---
 libmy/ip_arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..5a23fd9 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(prefix_len > 0 ? UINT32_MAX << (32 - prefix_len) : 0);
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32(prefix_len > 0 ? ~(UINT32_MAX << (32 - prefix_len)) : UINT32_MAX);
 	memcpy(out, &addr, 4);
 }
 
-- 
2.43.0


From 4dab5f46710ce6a8e48025927ba3a749b5b991aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 29/73] fix: compute IPv6 prefix bounds for prefix lengths 0
 and 64

---
 libmy/ip_arith.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index 5a23fd9..e32b690 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -58,6 +58,13 @@ ip4_incr(void *address) {
 	memcpy(address, &addr, 4);
 }
 
+/* the highest 'n' of 64 bits set, 'n' less than 64 */
+static inline uint64_t
+ip6_high_bits(unsigned n)
+{
+	return (n > 0 ? UINT64_MAX << (64 - n) : 0);
+}
+
 /* given big endian IPv6 prefix in 'address'/'prefix_len',
  * write lowest IP address ("network address") into 'lower' */
 static inline void
@@ -65,12 +72,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64(ip6_high_bits(prefix_len));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64(ip6_high_bits(prefix_len));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +94,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(~ip6_high_bits(prefix_len));
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(~ip6_high_bits(prefix_len));
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From 5f5f7c889cd44e9669429a58cd7763602862613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 30/73] fix: return no element from an empty heap

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index 1d8f7ee..a28cdcf 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -146,7 +146,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 366d3fc3c30a8cbdc13e8eb84d44bdb4be089647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 31/73] fix: require digits after TYPE and CLASS

---
 wdns/gen_rrclass_to_str | 2 ++
 wdns/gen_rrtype_to_str  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/wdns/gen_rrclass_to_str b/wdns/gen_rrclass_to_str
index 8f1953a..6008d94 100755
--- a/wdns/gen_rrclass_to_str
+++ b/wdns/gen_rrclass_to_str
@@ -99,6 +99,8 @@ convert_generic_rrclass(const char *s, long int *val) {
 
     s += 5; /* skip leading "CLASS" */
 
+    if (*s < '0' || *s > '9')
+        return (false);
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
         return (false);
diff --git a/wdns/gen_rrtype_to_str b/wdns/gen_rrtype_to_str
index b005a20..9a3df53 100755
--- a/wdns/gen_rrtype_to_str
+++ b/wdns/gen_rrtype_to_str
@@ -97,6 +97,8 @@ convert_generic_rrtype(const char *s, long int *val) {
 
     s += 4; /* skip leading "TYPE" */
 
+    if (*s < '0' || *s > '9')
+        return (false);
     *val = strtol(s, &endptr, 10);
     if (endptr != NULL && *endptr != '\\0')
         return (false);
-- 
2.43.0


From 5e896855b661de8b83b2136f78cd509bee0b8679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 32/73] fix: read lines of any length and content when loading
 names

---
 wdns/file_load_names.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 67faf57..2a333e2 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -18,7 +18,9 @@ wdns_res
 wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 {
 	FILE *fp;
-	char line[1280];
+	char *line = NULL;
+	size_t sz_line = 0;
+	ssize_t len;
 	wdns_res res;
 	wdns_name_t name;
 
@@ -27,19 +29,19 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		return (wdns_res_failure);
 
 	res = wdns_res_success;
-	memset(line, 0, sizeof(line));
 
-	while (fgets(line, sizeof(line), fp) != NULL) {
+	while ((len = getline(&line, &sz_line, fp)) != -1) {
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
-		if (line[strlen(line) - 1] == '\n')
-			line[strlen(line) - 1] = '\0';
+		if (line[len - 1] == '\n')
+			line[len - 1] = '\0';
 		res = wdns_str_to_name(line, &name);
 		if (res != wdns_res_success)
 			break;
 		cb(&name, user);
 	}
 
+	free(line);
 	fclose(fp);
 	return (res);
 }
-- 
2.43.0


From 0c321900cc88df3702d90d949468d40a9025704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 33/73] fix: do not read the data of an RRset without any when
 printing it as a question

---
 wdns/rrset_to_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/rrset_to_ubuf.c b/wdns/rrset_to_ubuf.c
index ece16fb..2f54a1d 100644
--- a/wdns/rrset_to_ubuf.c
+++ b/wdns/rrset_to_ubuf.c
@@ -32,7 +32,7 @@ _wdns_rrset_to_ubuf(ubuf *u, wdns_rrset_t *rrset, unsigned sec)
 		rr.name.len = rrset->name.len;
 		rr.name.data = rrset->name.data;
 		/* question RRsets carry no data */
-		rr.rdata = (rrset->rdatas != NULL) ? rrset->rdatas[i] : NULL;
+		rr.rdata = (i < rrset->n_rdatas) ? rrset->rdatas[i] : NULL;
 		_wdns_rr_to_ubuf(u, &rr, sec);
 	}
 }
-- 
2.43.0


From ac005054a7f4a93fe42c8fdff0c359c900de02ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 34/73] fix: encode no bytes as no base32 digits

---
 libmy/b32_encode.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..87c29c8 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,6 +79,9 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
+	if (len == 0)
+		return 0;
+
 	do {
 		size_t j, k;
 		uint8_t x[5];
-- 
2.43.0


From db7f9835d187866d48414e1536ef463c121fc5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 35/73] fix: stay inside empty and one-byte buffers when
 formatting

---
 libmy/my_format.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/libmy/my_format.c b/libmy/my_format.c
index 066cb3d..57499fa 100644
--- a/libmy/my_format.c
+++ b/libmy/my_format.c
@@ -37,6 +37,9 @@ my_bytes_to_hex_str(const uint8_t *src, size_t len, bool is_upper, char *dst, si
 {
 	size_t n;
 
+	if (dst_size == 0)
+		return 0;
+
 	if ((len * 2) > (dst_size - 1))
 		len = (dst_size - 1) / 2;
 
@@ -60,19 +63,24 @@ size_t
 my_uint64_to_str(uint64_t num, char *dst, size_t dst_size, const char **start)
 {
 	size_t ndigits = 0;
-	char *ptr = &dst[dst_size - 1];
+	char *ptr;
+
+	if (dst_size == 0) {
+		if (start != NULL)
+			*start = dst;
+		return 0;
+	}
 
-	*ptr-- = '\0';
+	ptr = &dst[dst_size - 1];
+	*ptr = '\0';
 
-	while (ptr >= dst) {
-		*ptr = '0' + num % 10;
+	while (ptr > dst) {
+		*--ptr = '0' + num % 10;
 		ndigits++;
 		num /= 10;
 
-		if (num == 0 || ptr == dst)
+		if (num == 0)
 			break;
-
-		ptr--;
 	}
 
 	if (start != NULL)
-- 
2.43.0


From 0359ac049c8f6fc272bae2d31bd4dffb3a867711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:46 +0000
Subject: [PATCH 36/73] fix: return the text unchanged when replacing an empty
 string

---
 libmy/string_replace.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/string_replace.h b/libmy/string_replace.h
index 5edc207..f3cd72b 100644
--- a/libmy/string_replace.h
+++ b/libmy/string_replace.h
@@ -28,7 +28,7 @@ string_replace(const char *str, const char *old, const char *new)
 	char *ret;
 	size_t retsz;
 
-	if (strstr(str, old) == NULL) {
+	if (*old == '\0' || strstr(str, old) == NULL) {
 		char *s = strdup(str);
 		assert(s != NULL);
 		return (s);
-- 
2.43.0


From 9d636d584c2e61ab7ae8f24f94e9f6415e3892f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 37/73] fix: report an error while reading a file of names

---
 wdns/file_load_names.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 2a333e2..0ca9984 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -41,6 +41,9 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		cb(&name, user);
 	}
 
+	if (res == wdns_res_success && ferror(fp))
+		res = wdns_res_failure;
+
 	free(line);
 	fclose(fp);
 	return (res);
-- 
2.43.0


From e8708240ec8ef0744f7e64de2edd34f104fe1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 38/73] fix: require digits after key in service parameter
 names

---
 wdns/svcparamkeys_to_str.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wdns/svcparamkeys_to_str.c b/wdns/svcparamkeys_to_str.c
index 1fca8ef..518ee56 100644
--- a/wdns/svcparamkeys_to_str.c
+++ b/wdns/svcparamkeys_to_str.c
@@ -76,6 +76,10 @@ _wdns_str_to_svcparamkey(char *str)
 		unsigned long int key;
 		char *endp;
 
+		if (!isdigit((unsigned char)str[strlen("key")])) {
+			return (spr_invalid);
+		}
+
 		key = strtoul(str + strlen("key"), &endp, 10);
 		assert(endp != NULL);
 
-- 
2.43.0


From ae1a8de231a7623fa173dc21ca63639c2df2fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 39/73] fix: reject signed port numbers in service parameter
 text

---
 wdns/str_to_rdata_ubuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index c54209f..7f829de 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -215,7 +215,7 @@ str_to_svcparam(ubuf *u, uint16_t key, char *val, size_t len_val)
 		 * 2 octet numeric value in network byte order.
 		 */
 		tok = strtok_r(val, " ", &endp);
-		if (tok == NULL || *tok == '\0') {
+		if (tok == NULL || !isdigit((unsigned char)*tok)) {
 			return (wdns_res_parse_error);
 		}
 
-- 
2.43.0


From a5350c985087cf9e42289e8b75eee6aba559021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 40/73] fix: keep the adjusted rate of a rate limiter as a real
 number

As an unsigned it can only drift down at small rates, and at a rate of one
it becomes zero: the tick period is then infinite.
---
 libmy/my_rate.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..3958ce8 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -63,8 +64,7 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double ratio, actual_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
@@ -76,7 +76,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	actual_rate = r->count / (ts_nanos(&elapsed) / (1000000000 + 0.0));
 
 	/* simple ratio of nominal event rate and average event rate */
-	ratio = r->rate / (actual_rate + 0.0);
+	ratio = r->rate / actual_rate;
 
 	/* clamp this ratio to a small interval */
 	if (ratio < 0.99)
@@ -88,7 +88,7 @@ adjust_rate(struct my_rate *r, struct timespec *now)
 	r->adj_rate *= ratio;
 
 	/* calculate a new tick period based on the adjusted rate */
-	const double period = 1.0 / (r->adj_rate + 0.0);
+	const double period = 1.0 / r->adj_rate;
 	my_timespec_from_double(period, &r->period);
 }
 
-- 
2.43.0


From 7396d5d240e33f89983013f31bba61e2f6d04c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:13 +0000
Subject: [PATCH 41/73] fix: convert large numbers of seconds to a timespec

Casting to int to find the fraction is undefined beyond INT_MAX seconds.
---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index 4fa9281..cc07340 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -59,7 +59,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - ts->tv_sec) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From 56006a2188f7fccc75564137e5470565ca0e4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 42/73] fix: load a file only once that a set file names twice

It was loaded twice, and after the next reload both entries shared one
pointer, which was then unloaded twice.
---
 libmy/my_fileset.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..7bc651e 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -107,6 +107,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -180,7 +190,7 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		if (path_exists(fname) && !has_entry(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From 454c7434ba5366b8f4ba8a51470ad80306083099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:51 +0000
Subject: [PATCH 43/73] fix: print the escapes of argv values in full

snprintf was given the length of the escape without its terminator, so that
\n came out as a backslash and a NUL byte.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 16b1c84..f919f83 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -482,7 +482,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 2 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 2), "\\%c", *(spec_p - 1));
+      LOC_SNPRINTF(SNP_ARG(out_p, 3), "\\%c", *(spec_p - 1));
       out_p += 2;
       continue;
     }
@@ -499,7 +499,7 @@ static	int	expand_buf(const void *buf, const int buf_size,
       if (out_p + 4 >= max_p) {
 	break;
       }
-      LOC_SNPRINTF(SNP_ARG(out_p, 4), "\\%03o", *buf_p);
+      LOC_SNPRINTF(SNP_ARG(out_p, 5), "\\%03o", *buf_p);
       out_p += 4;
     }
   }
-- 
2.43.0


From b87df4a481325464dd84fccd725edea62eeee8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:52 +0000
Subject: [PATCH 44/73] fix: terminate the text of character and string argv
 values

---
 libmy/argv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index f919f83..f2ef13a 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1508,6 +1508,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_CHAR:
     len = expand_buf((char *)var, 1, buf, buf_size);
+    buf[len] = '\0';
     break;
     
   case ARGV_CHAR_P:
@@ -1518,6 +1519,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     }
     else {
       len = expand_buf(*(char **)var, -1, buf, buf_size);
+      buf[len] = '\0';
     }
     break;
     
-- 
2.43.0


From e8fb3dec03c1949ea291c501b4a552eb9afbf13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:54 +0000
Subject: [PATCH 45/73] fix: do not look behind the last entry of an argv table

When the last option of the table was used, check_or examined the entry two
places further, which lies behind ARGV_LAST.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index f2ef13a..5fe6cd2 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1882,8 +1882,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From d5bcc1a739c817c4c4a10fd541e79d72e3bcaaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 46/73] fix: refuse a negative number in place of the name of
 an argv file

---
 libmy/argv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 5fe6cd2..d93c90e 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2713,10 +2713,11 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    match_p = queue_list[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
-	     * find out that we can use it below
+	     * find out that we can use it below.  NULL is queued for
+	     * the file argument, which takes no number.
 	     */
 	    
-	    switch (ARGV_TYPE(match_p->ar_type)) {
+	    switch (match_p == NULL ? 0 : ARGV_TYPE(match_p->ar_type)) {
 	      
 	    case ARGV_SHORT:
 	    case ARGV_INT:
-- 
2.43.0


From 2e3b8dc6d579bf10f5be1169ef15152326bd393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 47/73] fix: let the queue of argv options that wait for a
 value grow

It had one slot for each argument, but an argument can hold several short
options (-abc) and an argv file any number of them.
---
 libmy/argv.c | 111 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 37 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index d93c90e..c27e37e 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2152,7 +2152,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2164,7 +2164,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2258,7 +2258,8 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
+	  okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2271,6 +2272,58 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static void queue_arg
+ *
+ * DESCRIPTION:
+ *
+ * Add an option that waits for its value to the end of our option
+ * queue, which grows as needed.
+ *
+ * RETURNS:
+ *
+ * None.
+ *
+ * ARGUMENTS:
+ *
+ * match_p -> Entry in our argv_t structure array to add or NULL for
+ * the file argument.
+ *
+ * queue_list_p <-> Our option queue for storing options to arguments.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * okay_bp <- Pointer to an integer which is set with 0 if there was no
+ * memory for the queue.
+ */
+static	void	queue_arg(argv_t *match_p, argv_t ***queue_list_p,
+			  int *queue_head_p, int *okay_bp)
+{
+  argv_t	**list_p;
+  
+  if (*queue_head_p % ARRAY_INCR == 0) {
+    list_p = (argv_t **)realloc(*queue_list_p, sizeof(argv_t *) *
+				(*queue_head_p + ARRAY_INCR));
+    if (list_p == NULL) {
+      *okay_bp = ARGV_FALSE;
+      if (argv_error_stream != NULL) {
+	(void)fprintf(argv_error_stream,
+		      "%s: memory error during argument processing\n",
+		      argv_program);
+      }
+      if (argv_interactive) {
+	(void)exit(argv_error_code);
+      }
+      return;
+    }
+    *queue_list_p = list_p;
+  }
+  
+  (*queue_list_p)[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+}
+
 /*
  * static void do_arg
  *
@@ -2293,7 +2346,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2302,7 +2355,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2358,8 +2411,7 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    queue_arg(match_p, queue_list_p, queue_head_p, okay_bp);
   }
 }
 
@@ -2423,7 +2475,7 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Our option queue for storing options to arguments.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2435,7 +2487,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2527,7 +2579,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2538,13 +2590,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  queue_arg(NULL, queue_list_p, queue_head_p, okay_bp);
 	}
 	continue;
       }
@@ -2710,7 +2761,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below.  NULL is queued for
@@ -2744,7 +2795,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2754,12 +2805,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3127,7 +3178,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3189,22 +3240,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
-
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
   
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3212,12 +3251,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3236,9 +3275,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From a15673042ebd84a132cd5b0a6c0a7fa51eb2ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:57 +0000
Subject: [PATCH 48/73] fix: leave the arguments given to argv_process as they
 were

The equals sign of --name=value stayed overwritten by a NUL byte, so that
argv_copy_args lost the values too.
---
 libmy/argv.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index c27e37e..983dfe5 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2498,6 +2498,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
   /* run throught rest of arguments */
   for (arg_p = argv; arg_p < argv + arg_c; arg_p++) {
     
+    /* put back the equals marker of the previous argument */
+    if (close_p != NULL) {
+      *(close_p - 1) = ARG_EQUALS;
+      close_p = NULL;
+    }
+    
     /* have we reached the LAST_ARG marker? */
     if (strcmp(LAST_ARG, *arg_p) == 0) {
       if (last_arg_b) {
@@ -2863,6 +2869,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     *okay_bp = ARGV_FALSE;
   }
   
+  if (close_p != NULL) {
+    *(close_p - 1) = ARG_EQUALS;
+  }
+  
   if (unwant_c > 0 && argv_error_stream != NULL) {
     (void)fprintf(argv_error_stream,
 		  "%s: %s, %d unwanted additional argument%s\n",
-- 
2.43.0


From 5ec62fc29818c86d459a0e36ac7778964bd07f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 49/73] fix: keep a zero argv value inside a buffer of one
 octet

---
 libmy/argv.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 983dfe5..b5ea5ef 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1624,7 +1624,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
     
   case ARGV_HEX:
     if (*(int *)var == 0) {
-      (void)strcpy(buf, "0");
+      LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
     }
     else {
       LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%#x (%d)",
@@ -1643,7 +1643,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       long	morf, val = *(long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
@@ -1670,7 +1670,7 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       unsigned long	morf, val = *(unsigned long *)var;
       
       if (val == 0) {
-	(void)strcpy(buf, "0");
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "0");
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-- 
2.43.0


From dc9229ce22e461a8f33639ff8ab5a0af578193b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:59 +0000
Subject: [PATCH 50/73] fix: look up a long argv option by its name, not by its
 address

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index b5ea5ef..1a5f0c5 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3458,7 +3458,8 @@ int	argv_long_was_used(const argv_t *args, const char *long_arg)
   }
   
   for (arg_p = args; arg_p->ar_short_arg != ARGV_LAST; arg_p++) {
-    if (arg_p->ar_long_arg == long_arg) {
+    if (arg_p->ar_long_arg != NULL
+	&& strcmp(arg_p->ar_long_arg, long_arg) == 0) {
       if (arg_p->ar_type & ARGV_FLAG_USED) {
 	return 1;
       }
-- 
2.43.0


From 7449ca79257b4ce9a349755e0793500f1b1cb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 51/73] fix: free the environment arguments that argv_process
 does not use

---
 libmy/argv.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 1a5f0c5..1b2c7f4 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3255,9 +3255,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* do the external args */
@@ -3268,9 +3265,6 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
     do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
-    free(env_vect_p);
-    free(environ_p);
-    env_vect_p = NULL;
   }
   
   /* make sure the XOR and MAND args and argument-options are okay */
@@ -3286,6 +3280,8 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   
   /* if we allocated the space then free it */
   free(queue_list);
+  free(env_vect_p);
+  free(environ_p);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 29503b48ebf8c4670af2630812dc0172b48790ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:01 +0000
Subject: [PATCH 52/73] fix: report an argv array without a variable as other
 entries are

---
 libmy/argv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 1b2c7f4..87200f5 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1120,7 +1120,9 @@ static	int	preprocess_array(argv_t *args, const int arg_n)
 	}
 	return ERROR;
       }
-      arrp->aa_entry_n = 0;
+      if (arrp != NULL) {
+	arrp->aa_entry_n = 0;
+      }
     }
     
     /* verify variable pointer */
-- 
2.43.0


From 3c16ff4484d889ec768e5c03cecf9c0bb39999c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 53/73] fix: read and print unsigned long argv values over
 LONG_MAX

---
 libmy/argv.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 87200f5..c61c437 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1317,7 +1317,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_U_INT:
-    *(unsigned int *)var = atoi(arg);
+    *(unsigned int *)var = (unsigned int)strtoul(arg, NULL, 10);
     break;
     
   case ARGV_LONG:
@@ -1325,7 +1325,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     break;
     
   case ARGV_U_LONG:
-    *(unsigned long *)var = atol(arg);
+    *(unsigned long *)var = strtoul(arg, NULL, 10);
     break;
     
   case ARGV_FLOAT:
@@ -1392,7 +1392,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
       unsigned long	val;
       
       /* take initial integer point */
-      val = (unsigned long)atol(arg);
+      val = strtoul(arg, NULL, 10);
       for (arg_p = arg;
 	   *arg_p == ' ' || *arg_p == '-' || *arg_p == '+'
 	     || (*arg_p >= '0' && *arg_p <= '9');
@@ -1676,18 +1676,18 @@ static	int	value_to_string(const ARGV_PNT var, const unsigned int type,
       }
       else if (val % (1024 * 1024 * 1024) == 0) {
 	morf = val / (1024 * 1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldg (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lug (%lu)", morf, val);
       }
       else if (val % (1024 * 1024) == 0) {
 	morf = val / (1024 * 1024);
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldm (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lum (%lu)", morf, val);
       }
       else if (val % 1024 == 0) {
 	morf = val / 1024;
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ldk (%ld)", morf, val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%luk (%lu)", morf, val);
       }
       else {
-	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%ld", val);
+	LOC_SNPRINTF(SNP_ARG(buf, buf_size), "%lu", val);
       }
       
       len = strlen(buf);
-- 
2.43.0


From 2350c07bb8fb00af7ad6995088a56d7b9c26e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 54/73] fix: set up the error stream of argv_process_no_env

Its initial value is not a stream, and only the other functions replaced it
by stderr.
---
 libmy/argv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index c61c437..581c7c1 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -3192,6 +3192,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   argv_t	**queue_list = NULL;
   int		queue_head = 0, queue_tail = 0, env_n;
   
+  if (! enabled_b) {
+    argv_startup();
+  }
+  
   if (args == NULL) {
     args = empty;
   }
-- 
2.43.0


From 09a77f4e7661aaf41c3f92cbb60a5b9908270493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 55/73] fix: take and return 64-bit values in atomic64
 operations

atomic64_zero returned the lower 32 bits of the old value, and the amounts to
add and subtract were cut to an int.
---
 libmy/atomic_64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..84fd1f0 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -36,7 +36,7 @@ typedef struct {
  * @param v pointer of type atomic64_t
  */
 static inline void
-atomic64_add(int i, atomic64_t *v) {
+atomic64_add(int64_t i, atomic64_t *v) {
          (void)__sync_add_and_fetch(&v->counter, i);
 }
 
@@ -48,7 +48,7 @@ atomic64_add(int i, atomic64_t *v) {
  * Atomically subtracts @i from @v.
  */
 static inline void
-atomic64_sub(int i, atomic64_t *v) {
+atomic64_sub(int64_t i, atomic64_t *v) {
         (void)__sync_sub_and_fetch(&v->counter, i);
 }
 
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
@@ -72,7 +72,7 @@ atomic64_zero(atomic64_t *v) {
  * other cases.
  */
 static inline int
-atomic64_sub_and_test(int i, atomic64_t *v) {
+atomic64_sub_and_test(int64_t i, atomic64_t *v) {
         return !(__sync_sub_and_fetch(&v->counter, i));
 }
 
@@ -135,7 +135,7 @@ atomic64_inc_and_test(atomic64_t *v) {
  * result is greater than or equal to zero.
  */
 static inline int
-atomic64_add_negative(int i, atomic64_t *v) {
+atomic64_add_negative(int64_t i, atomic64_t *v) {
        return (__sync_add_and_fetch(&v->counter, i) < 0);
 }
 
-- 
2.43.0


From 4027cfc4f7e06238821082db8557db1dd32a0ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 56/73] fix: free the reader of a zone file that cannot be
 opened

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index eddaa8b..cb50d79 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -83,8 +83,10 @@ zonefile_init_fname(const char *fname)
 		z->fp = fopen(fname, "r");
 	}
 
-	if (z->fp == NULL)
+	if (z->fp == NULL) {
+		free(z);
 		return (NULL);
+	}
 
 	z->valid = true;
 	if (read_soa(z) != LDNS_STATUS_OK)
-- 
2.43.0


From 3a559f7ce79c9c33f5340c8b9e21ed6be85f032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:42 +0000
Subject: [PATCH 57/73] fix: keep a zone file at its end once its second SOA
 was read

The call after the one that reported the end returned the records behind the
second SOA.
---
 libmy/zonefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index cb50d79..f89b688 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -169,6 +169,7 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			if (ldns_rr_get_type(rr) == LDNS_RR_TYPE_SOA) {
 				ldns_rr_free(rr);
 				*out = NULL;
+				z->eof = true;
 				return (LDNS_STATUS_OK);
 			}
 			z->count++;
-- 
2.43.0


From 5165d3d3875c88dbdd67bff560f730a51b92d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:43 +0000
Subject: [PATCH 58/73] fix: refuse a zone file without records

ldns reports an empty line at the end of the file, time and again.
---
 libmy/zonefile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index f89b688..ea535f6 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -37,6 +37,10 @@ read_soa(struct zonefile *z)
 		case LDNS_STATUS_SYNTAX_EMPTY:
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
+			if (feof(z->fp)) {
+				status = LDNS_STATUS_ERR;
+				goto out;
+			}
 			status = LDNS_STATUS_OK;
 			break;
 		default:
-- 
2.43.0


From 09053278bd36ad926d61edec705dc1c4d2f5ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:53 +0000
Subject: [PATCH 59/73] fix: quote the name of a compressed zone file for the
 shell

---
 libmy/zonefile.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index ea535f6..1a3e220 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -78,8 +78,15 @@ zonefile_init_fname(const char *fname)
 	    fname[len_fname - 1] == 'z')
 	{
 		ubuf *u = ubuf_new();
-		ubuf_add_cstr(u, "zcat ");
-		ubuf_add_cstr(u, fname);
+		ubuf_add_cstr(u, "zcat -- '");
+		for (const char *p = fname; *p != '\0'; p++) {
+			/* a quote is the only octet special between quotes */
+			if (*p == '\'')
+				ubuf_add_cstr(u, "'\\''");
+			else
+				ubuf_add(u, *p);
+		}
+		ubuf_add(u, '\'');
 		z->fp = popen(ubuf_cstr(u), "r");
 		z->is_pipe = true;
 		ubuf_destroy(&u);
-- 
2.43.0


From 153cad0862b087d5fe5cd5b52d5c0dbb0166a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:54 +0000
Subject: [PATCH 60/73] fix: free the origin of a zone file that its SOA
 replaces

---
 libmy/zonefile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 1a3e220..6224d72 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -61,6 +61,8 @@ out:
 
 	z->count = 1;
 	z->domain = ldns_rdf_clone(ldns_rr_owner(rr));
+	if (z->origin != NULL)
+		ldns_rdf_deep_free(z->origin);
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
 	return (LDNS_STATUS_OK);
-- 
2.43.0


From 02807959857d1449d1198b4d99dc137c512f5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:55 +0000
Subject: [PATCH 61/73] fix: keep the serial of a zone file for after its SOA
 was read

zonefile_read hands the SOA record to its caller, and zonefile_get_serial
then used a null pointer.
---
 libmy/zonefile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index 6224d72..a30bde3 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -20,6 +20,7 @@ struct zonefile {
 	ldns_rdf	*prev;
 	ldns_rr		*rr_soa;
 	uint32_t	ttl;
+	uint32_t	serial;
 	size_t		count;
 };
 
@@ -27,6 +28,7 @@ static ldns_status
 read_soa(struct zonefile *z)
 {
 	ldns_rr *rr;
+	ldns_rdf *rdf;
 	ldns_status status;
 
 	for (;;) {
@@ -65,6 +67,9 @@ out:
 		ldns_rdf_deep_free(z->origin);
 	z->origin = ldns_rdf_clone(ldns_rr_owner(rr));
 	z->rr_soa = rr;
+	rdf = ldns_rr_rdf(rr, 2);
+	assert(rdf != NULL);
+	z->serial = ldns_rdf2native_int32(rdf);
 	return (LDNS_STATUS_OK);
 }
 
@@ -146,9 +151,7 @@ zonefile_get_count(struct zonefile *z)
 uint32_t
 zonefile_get_serial(struct zonefile *z)
 {
-	ldns_rdf *rdf = ldns_rr_rdf(z->rr_soa, 2);
-	assert(rdf != NULL);
-	return (ldns_rdf2native_int32(rdf));
+	return (z->serial);
 }
 
 ldns_status
-- 
2.43.0


From 8c72003e598675d717817cb94ec950130f8b148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:34 +0000
Subject: [PATCH 62/73] fix: end the reading of a zone file at a read error

---
 libmy/zonefile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index a30bde3..d5ce326 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -39,7 +39,7 @@ read_soa(struct zonefile *z)
 		case LDNS_STATUS_SYNTAX_EMPTY:
 		case LDNS_STATUS_SYNTAX_TTL:
 		case LDNS_STATUS_SYNTAX_ORIGIN:
-			if (feof(z->fp)) {
+			if (feof(z->fp) || ferror(z->fp)) {
 				status = LDNS_STATUS_ERR;
 				goto out;
 			}
@@ -174,6 +174,8 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 		return (LDNS_STATUS_OK);
 	}
 	for (;;) {
+		if (ferror(z->fp))
+			return (LDNS_STATUS_ERR);
 		if (feof(z->fp)) {
 			*out = NULL;
 			z->eof = true;
-- 
2.43.0


From 4b0c83b78a7a458915d626e6a090b5dc944a654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:14 +0000
Subject: [PATCH 63/73] fix: stop when there is no memory to read or print
 record data

---
 libmy/my_alloc.h         |  8 ++++++++
 wdns/rdata_to_ubuf.c     |  2 +-
 wdns/str_to_rdata_ubuf.c | 32 ++++++++++++++++----------------
 3 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/libmy/my_alloc.h b/libmy/my_alloc.h
index 4ae4865..bce484c 100644
--- a/libmy/my_alloc.h
+++ b/libmy/my_alloc.h
@@ -37,6 +37,14 @@ my_strdup(const char *s)
 	return (ptr);
 }
 
+static inline char *
+my_strndup(const char *s, size_t n)
+{
+	char *ptr = strndup(s, n);
+	assert(ptr != NULL);
+	return (ptr);
+}
+
 #define my_free(ptr) do { free(ptr); (ptr) = NULL; } while (0)
 
 #if defined(MY_ALLOC_WARN_DEPRECATED)
diff --git a/wdns/rdata_to_ubuf.c b/wdns/rdata_to_ubuf.c
index 2e4823c..910a038 100644
--- a/wdns/rdata_to_ubuf.c
+++ b/wdns/rdata_to_ubuf.c
@@ -69,7 +69,7 @@ bytes_to_ubuf_base64(uint8_t *src, uint16_t src_len, ubuf *u)
 	base64_encodestate b64;
 
 	base64_init_encodestate(&b64);
-	buf = malloc(2 * src_len + 1);
+	buf = my_malloc(2 * src_len + 1);
 
 	len = base64_encode_block((const char *)src, src_len, buf, &b64);
 	ubuf_append(u, (uint8_t *)buf, len);
diff --git a/wdns/str_to_rdata_ubuf.c b/wdns/str_to_rdata_ubuf.c
index 7f829de..6540a73 100644
--- a/wdns/str_to_rdata_ubuf.c
+++ b/wdns/str_to_rdata_ubuf.c
@@ -101,7 +101,7 @@ base64_str_to_ubuf(const char *str, size_t str_len, ubuf *u)
 	size_t buf_len;
 
 	base64_init_decodestate(&b64);
-	buf = malloc(str_len+1);
+	buf = my_malloc(str_len+1);
 	buf_len = base64_decode_block((const char *) str, str_len, buf, &b64);
 	ubuf_append(u, (uint8_t *) buf, buf_len);
 	free(buf);
@@ -466,11 +466,11 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				s = strndup(str, end-str);
+				s = my_strndup(str, end-str);
 			} else {
-				s = strdup(str);
+				s = my_strdup(str);
 			}
-			name = calloc(1, sizeof(*name));
+			name = my_calloc(1, sizeof(*name));
 
 			res = wdns_str_to_name_case(s, name);
 			if (res != wdns_res_success) {
@@ -579,9 +579,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			char * pres;
 
 			if (end != NULL) {
-				pres = strndup(str, end-str);
+				pres = my_strndup(str, end-str);
 			} else {
-				pres = strdup(str);
+				pres = my_strdup(str);
 			}
 
 			int pton_res = inet_pton(AF_INET6, pres, addr);
@@ -670,7 +670,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				break;
 			}
 
-			buf = malloc(str_len);
+			buf = my_malloc(str_len);
 			buf_len = base32_decode(buf, str_len, str, str_len);
 
 			uint8_t oclen = (uint8_t)buf_len;
@@ -785,7 +785,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				end = str + strlen(str);
 			}
 
-			pres = strdup(str);
+			pres = my_strdup(str);
 			pres[end-str] = 0;
 			pton_res = inet_pton(AF_INET, pres, addr);
 			free(pres);
@@ -808,9 +808,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				pres = strndup(str, end-str);
+				pres = my_strndup(str, end-str);
 			} else {
-				pres = strdup(str);
+				pres = my_strdup(str);
 			}
 			pton_res = inet_pton(AF_INET6, pres, addr);
 			free(pres);
@@ -938,9 +938,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 			const char *end = strpbrk(str, " \t\r\n");
 
 			if (end != NULL) {
-				s_rrtype = strndup(str, end-str);
+				s_rrtype = my_strndup(str, end-str);
 			} else {
-				s_rrtype = strdup(str);
+				s_rrtype = my_strdup(str);
 			}
 			my_rrtype = htons(wdns_str_to_rrtype(s_rrtype));
 			is_type0 = (strcasecmp(s_rrtype, "TYPE0") == 0);
@@ -996,7 +996,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 					val++;
 				}
 
-				dup = strndup(key, val - key);
+				dup = my_strndup(key, val - key);
 				k = _wdns_str_to_svcparamkey(dup);
 				free(dup);
 
@@ -1044,7 +1044,7 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 				}
 
 				len_dup = ubuf_size(u) - orig_size;
-				dup = calloc(len_dup+1, 1);
+				dup = my_calloc(len_dup+1, 1);
 				memcpy(dup, ubuf_data(u) + orig_offset, len_dup);
 				ubuf_clip(u, orig_size);
 
@@ -1085,9 +1085,9 @@ _wdns_str_to_rdata_ubuf(ubuf *u, const char *str,
 
 				end = strpbrk(str, " \t\r\n");
 				if (end != NULL) {
-					s_rrtype = strndup(str, end-str);
+					s_rrtype = my_strndup(str, end-str);
 				} else {
-					s_rrtype = strdup(str);
+					s_rrtype = my_strdup(str);
 				}
 
 				my_rrtype = wdns_str_to_rrtype(s_rrtype);
-- 
2.43.0


From 7da81c0a01da07fe7e2807a733c858ada48f0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:16 +0000
Subject: [PATCH 64/73] fix: report a failure in the midst of reading names,
 and no name cut short

---
 wdns/file_load_names.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wdns/file_load_names.c b/wdns/file_load_names.c
index 0ca9984..651980e 100644
--- a/wdns/file_load_names.c
+++ b/wdns/file_load_names.c
@@ -31,6 +31,9 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 	res = wdns_res_success;
 
 	while ((len = getline(&line, &sz_line, fp)) != -1) {
+		/* a line that an error cut short */
+		if (ferror(fp))
+			break;
 		if (line[0] == '\n' || line[0] == ' ' || line[0] == '#')
 			continue;
 		if (line[len - 1] == '\n')
@@ -41,7 +44,7 @@ wdns_file_load_names(const char *fname, wdns_callback_name cb, void *user)
 		cb(&name, user);
 	}
 
-	if (res == wdns_res_success && ferror(fp))
+	if (res == wdns_res_success && !feof(fp))
 		res = wdns_res_failure;
 
 	free(line);
-- 
2.43.0


From 74f0343161e664a1a5c87e8fdcb3fac65acb201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:17 +0000
Subject: [PATCH 65/73] fix: keep a file set whose set file cannot be read

---
 libmy/my_fileset.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 7bc651e..aba309f 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -79,6 +79,14 @@ setfile_updated(struct my_fileset *fs)
 	return (false);
 }
 
+/* have the set file read at the next reload, whether or not it changes */
+static void
+forget_setfile(struct my_fileset *fs)
+{
+	fs->last_ino = 0;
+	fs->last_mtime = 0;
+}
+
 static int
 cmp_fileset_entry(const void *a, const void *b)
 {
@@ -177,8 +185,10 @@ my_fileset_reload(struct my_fileset *fs)
 		return;
 
 	fp = fopen(fs->setfile, "r");
-	if (fp == NULL)
+	if (fp == NULL) {
+		forget_setfile(fs);
 		return;
+	}
 
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
@@ -208,6 +218,24 @@ my_fileset_reload(struct my_fileset *fs)
 		}
 	}
 	free(line);
+
+	if (!feof(fp)) {
+		/* the set file was not read to its end: keep the files there are */
+		for (size_t i = 0; i < entry_vec_size(fs->entries); i++)
+			entry_vec_value(fs->entries, i)->keep = false;
+		for (size_t i = 0; i < entry_vec_size(new_entries); i++) {
+			ent = entry_vec_value(new_entries, i);
+			if (fetch_entry(fs->entries, ent->fname) == NULL && fs->unload)
+				fs->unload(fs, ent->fname, ent->ptr);
+			free(ent->fname);
+			free(ent);
+		}
+		entry_vec_destroy(&new_entries);
+		ubuf_destroy(&u);
+		fclose(fp);
+		forget_setfile(fs);
+		return;
+	}
 	fclose(fp);
 
 	qsort(entry_vec_data(new_entries),
-- 
2.43.0


From 2e5bcd960437f4108d0179f3aa4838b8d41a2cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:18 +0000
Subject: [PATCH 66/73] fix: keep an active file until another one replaces it

---
 libmy/spooldir.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libmy/spooldir.c b/libmy/spooldir.c
index 6c7306d..21476d6 100644
--- a/libmy/spooldir.c
+++ b/libmy/spooldir.c
@@ -185,9 +185,8 @@ spooldir_next(struct spooldir *s)
 	ubuf_cterm(s->fname);
 
 	if (path_exists(ubuf_cstr(s->fname))) {
-		fprintf(stderr, "%s: WARNING: unlinking destination path %s\n",
+		fprintf(stderr, "%s: WARNING: replacing destination path %s\n",
 			__func__, ubuf_cstr(s->fname));
-		unlink(ubuf_cstr(s->fname));
 	}
 
 	int rename_ret = rename(ubuf_cstr(src_fname), ubuf_cstr(s->fname));
-- 
2.43.0


From 23ae3d6320006558a5d0a8be0da45b33770c1356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:19 +0000
Subject: [PATCH 67/73] fix: report and free when there is no memory for
 command-line arguments

---
 libmy/argv.c | 77 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 50 insertions(+), 27 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 581c7c1..4a694aa 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -353,7 +353,7 @@ static	char	*string_copy(const char *str)
  * tok - List of token characters to look for in the string.
  *
  * num_tok_p - Pointer to an integer which will be set to the number
- * of tokens found in the string.
+ * of tokens found in the string; it is not 0 if there was no memory.
  */
 static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
 {
@@ -364,6 +364,7 @@ static	char	**vectorize(char *str, const char *tok, int *num_tok_p)
   /* count the tokens */
   tmp = string_copy(str);
   if (tmp == NULL) {
+    *num_tok_p = -1;
     return NULL;
   }
   
@@ -1203,6 +1204,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
 {
   argv_array_t	*arr_p;
   argv_type_t	*type_p;
+  void		*entries_p;
   unsigned int	val_type = ARGV_TYPE(type), size = 0;
   
   /* find the type and the size for array */
@@ -1225,15 +1227,18 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
     arr_p = (argv_array_t *)var;
     
     if (arr_p->aa_entry_n == 0) {
-      arr_p->aa_entries = (char *)malloc(ARRAY_INCR *size);
+      entries_p = malloc(ARRAY_INCR *size);
     }
     else if (arr_p->aa_entry_n % ARRAY_INCR == 0) {
-      arr_p->aa_entries =
-	(char *)realloc(arr_p->aa_entries, (arr_p->aa_entry_n + ARRAY_INCR) *
-			size);
+      entries_p = realloc(arr_p->aa_entries,
+			  (arr_p->aa_entry_n + ARRAY_INCR) * size);
+    }
+    else {
+      entries_p = arr_p->aa_entries;
     }
     
-    if (arr_p->aa_entries == NULL) {
+    /* without memory the entries that are there stay */
+    if (entries_p == NULL) {
       if (argv_error_stream != NULL) {
 	(void)fprintf(argv_error_stream,
 		      "%s: memory error during argument processing\n",
@@ -1244,6 +1249,7 @@ static	int	string_to_value(const char *arg, ARGV_PNT var,
       }
       return ERROR;
     }
+    arr_p->aa_entries = entries_p;
     
     var = (char *)(arr_p->aa_entries) + arr_p->aa_entry_n * size;
     arr_p->aa_entry_n++;
@@ -2169,8 +2175,8 @@ static	void	file_args(const char *path, argv_t *grid,
 			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
-  char	**argv, **argv_p;
-  int	arg_c, max;
+  char	**argv, **argv_p, **grown_p;
+  int	arg_c, max, error_b = ARGV_FALSE;
   FILE	*infile;
   char	line[FILE_LINE_SIZE], *line_p;
   
@@ -2229,8 +2235,8 @@ static	void	file_args(const char *path, argv_t *grid,
     
     *argv_p = string_copy(line);
     if (*argv_p == NULL) {
-      *okay_bp = ARGV_FALSE;
-      return;
+      error_b = ARGV_TRUE;
+      break;
     }
     
     argv_p++;
@@ -2239,12 +2245,9 @@ static	void	file_args(const char *path, argv_t *grid,
     /* do we need to grow the array of pointers? */
     if (arg_c == max) {
       max += ARRAY_INCR;
-      argv = realloc(argv, sizeof(char *) * max);
-      if (argv == NULL) {
-	*okay_bp = ARGV_FALSE;
-	if (infile != stdin) {
-	  (void)fclose(infile);
-	}
+      grown_p = realloc(argv, sizeof(char *) * max);
+      if (grown_p == NULL) {
+	error_b = ARGV_TRUE;
 	if (argv_error_stream != NULL) {
 	  (void)fprintf(argv_error_stream,
 			"%s: memory error during argument processing\n",
@@ -2253,15 +2256,21 @@ static	void	file_args(const char *path, argv_t *grid,
 	if (argv_interactive) {
 	  (void)exit(argv_error_code);
 	}
-	return;
+	break;
       }
+      argv = grown_p;
       argv_p = argv + arg_c;
     }
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
-	  okay_bp);
+  if (error_b) {
+    *okay_bp = ARGV_FALSE;
+  }
+  else {
+    do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
+	    okay_bp);
+  }
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2783,7 +2792,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	    case ARGV_LONG:
 	    case ARGV_FLOAT:
 	    case ARGV_DOUBLE:
-              string_to_value(*arg_p, match_p->ar_variable, match_p->ar_type);
+	      if (string_to_value(*arg_p, match_p->ar_variable,
+				  match_p->ar_type) != NOERROR) {
+		*okay_bp = ARGV_FALSE;
+	      }
 	      char_c = len;
 	      /* we actually used it so we advance the queue tail position */
 	      (*queue_tail_p)++;
@@ -2906,10 +2918,14 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
  *
  * env_np - Pointer to an integer which is set with the number
  * of environ arguments.
+ *
+ * okay_bp <- Pointer to an integer which is set with 0 if there was no
+ * memory for the environ arguments.
  */
-static	char	**preprocess_env_args(char **environ_pp, int *env_np)
+static	char	**preprocess_env_args(char **environ_pp, int *env_np,
+				      int *okay_bp)
 {
-  char	env_name[1024], *environ_p;
+  char	env_name[1024], *environ_p, **vect_p;
   
   *env_np = 0;
   
@@ -2932,14 +2948,21 @@ static	char	**preprocess_env_args(char **environ_pp, int *env_np)
   /* break the list into tokens and do the list */
   environ_p = string_copy(environ_p);
   if (environ_p == NULL) {
-    (void)fprintf(argv_error_stream,
-		  "%s: problems allocating memory for environmental arguments\n",
-		  argv_program);
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: problems allocating memory for environmental arguments\n",
+		    argv_program);
+    }
+    *okay_bp = ARGV_FALSE;
     return NULL;
   }
   *environ_pp = environ_p;
   
-  return vectorize(environ_p, " \t", env_np);
+  vect_p = vectorize(environ_p, " \t", env_np);
+  if (vect_p == NULL && *env_np != 0) {
+    *okay_bp = ARGV_FALSE;
+  }
+  return vect_p;
 }
 
 /*
@@ -3255,7 +3278,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
 
   /* preprocess environmental args */
-  env_vect_p = preprocess_env_args(&environ_p, &env_n);
+  env_vect_p = preprocess_env_args(&environ_p, &env_n, &okay_b);
   
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-- 
2.43.0


From eb0cf163b348f1052099310a2d31b6c72fa72439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:19 +0000
Subject: [PATCH 68/73] fix: refuse an argument file that cannot be read to its
 end

---
 libmy/argv.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 4a694aa..018308f 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2263,6 +2263,19 @@ static	void	file_args(const char *path, argv_t *grid,
     }
   }
   
+  /* did we get all of the file? */
+  if (! error_b && ferror(infile)) {
+    error_b = ARGV_TRUE;
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: could not load command-line arguments from: %s\n",
+		    argv_program, path);
+    }
+    if (argv_interactive) {
+      (void)exit(argv_error_code);
+    }
+  }
+  
   /* now do the list */
   if (error_b) {
     *okay_bp = ARGV_FALSE;
-- 
2.43.0


From 98995b04150cd9e492c31e37fb263d6a833f2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 69/73] fix: a damaged compressed zone file is not read as a
 complete one

---
 libmy/zonefile.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/libmy/zonefile.c b/libmy/zonefile.c
index d5ce326..553af9f 100644
--- a/libmy/zonefile.c
+++ b/libmy/zonefile.c
@@ -1,3 +1,5 @@
+#include <sys/types.h>
+#include <sys/wait.h>
 #include <assert.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -73,6 +75,22 @@ out:
 	return (LDNS_STATUS_OK);
 }
 
+/*
+ * Wait for zcat to finish, and tell whether it decompressed the whole file: its
+ * output also ends where it comes upon damage. An exit status of 2 is a warning.
+ */
+static bool
+close_pipe(struct zonefile *z)
+{
+	int status = pclose(z->fp);
+
+	z->fp = NULL;
+	if (status == -1)
+		return (true);
+	return (WIFEXITED(status) &&
+		(WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 2));
+}
+
 struct zonefile *
 zonefile_init_fname(const char *fname)
 {
@@ -178,6 +196,10 @@ zonefile_read(struct zonefile *z, ldns_rr **out)
 			return (LDNS_STATUS_ERR);
 		if (feof(z->fp)) {
 			*out = NULL;
+			if (z->is_pipe && !close_pipe(z)) {
+				z->valid = false;
+				return (LDNS_STATUS_ERR);
+			}
 			z->eof = true;
 			return (LDNS_STATUS_OK);
 		}
-- 
2.43.0


From f3bc2dc06c134288044d9a09cf93085582086465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:12 +0000
Subject: [PATCH 70/73] fix: lines of any length in a command-line argument
 file

---
 libmy/argv.c     | 9 ++++++---
 libmy/argv_loc.h | 1 -
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 018308f..7875613 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2178,7 +2178,8 @@ static	void	file_args(const char *path, argv_t *grid,
   char	**argv, **argv_p, **grown_p;
   int	arg_c, max, error_b = ARGV_FALSE;
   FILE	*infile;
-  char	line[FILE_LINE_SIZE], *line_p;
+  char	*line = NULL, *line_p;
+  size_t	line_size = 0;
   
   /* open the input file */
   if (strcmp(path, "-") == 0) {
@@ -2222,7 +2223,7 @@ static	void	file_args(const char *path, argv_t *grid,
   argv_p = argv;
   
   /* read in the file lines */
-  while (fgets(line, sizeof(line), infile) != NULL) {
+  while (getline(&line, &line_size, infile) != -1) {
     /* punch the \n at end of line */
     for (line_p = line; *line_p != '\n' && *line_p != '\0'; line_p++) {
     }
@@ -2263,8 +2264,10 @@ static	void	file_args(const char *path, argv_t *grid,
     }
   }
   
+  free(line);
+  
   /* did we get all of the file? */
-  if (! error_b && ferror(infile)) {
+  if (! error_b && ! feof(infile)) {
     error_b = ARGV_TRUE;
     if (argv_error_stream != NULL) {
       (void)fprintf(argv_error_stream,
diff --git a/libmy/argv_loc.h b/libmy/argv_loc.h
index 6ccf5dc..2dbfd33 100644
--- a/libmy/argv_loc.h
+++ b/libmy/argv_loc.h
@@ -74,7 +74,6 @@ extern "C" {
 #define SPECIAL_CHARS		"e\033^^\"\"''\\\\n\nr\rt\tb\bf\fa\007"
 #define DUMP_SPACE_BUF		128		/* space for memory dump */
 #define ARG_MALLOC_INCR		20		/* alloc in 10 increments */
-#define FILE_LINE_SIZE		1024		/* max size of file lines */
 
 /* internal flags set in the ar_type field */
 /* NOTE: other external flags defined in argv.h */
-- 
2.43.0


From e4ef68841fdbf155d8d96a9218acad38e5bef902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:09 +0000
Subject: [PATCH 71/73] fix: a signal does not let an event through the rate
 limiter early

---
 libmy/my_rate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 3958ce8..885c7b6 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -14,6 +14,7 @@
  * limitations under the License.
  */
 
+#include <errno.h>
 #include <stdint.h>
 #include <math.h>
 
@@ -169,7 +170,9 @@ my_rate_sleep(struct my_rate *r)
 	if (ts_nanos(&til) > 0) {
 		/* do the sleep */
 #if HAVE_CLOCK_NANOSLEEP
-		clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL);
+		/* a signal does not bring the next tick forward */
+		while (clock_nanosleep(rate_clock, TIMER_ABSTIME, &r->next_tick, NULL) == EINTR)
+			continue;
 #else
 		struct timespec rel;
 		rel = r->next_tick;
-- 
2.43.0


From 024902e21f81810af53ba4ec13b1b0622ce47315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:55 +0000
Subject: [PATCH 72/73] fix: a set file rewritten twice within a second is read
 again

---
 libmy/my_fileset.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index aba309f..8480fa0 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -39,6 +39,7 @@ VECTOR_GENERATE(entry_vec, struct fileset_entry *);
 struct my_fileset {
 	ino_t			last_ino;
 	time_t			last_mtime;
+	long			last_mtime_nsec;
 	char			*setfile;
 	char			*setdir;
 	my_fileset_load_func	load;
@@ -59,6 +60,14 @@ path_exists(const char *path)
 	return (true);
 }
 
+/* have the set file read at the next reload, whether or not it changes */
+static void
+forget_setfile(struct my_fileset *fs)
+{
+	fs->last_ino = 0;
+	fs->last_mtime = 0;
+}
+
 static bool
 setfile_updated(struct my_fileset *fs)
 {
@@ -71,6 +80,11 @@ setfile_updated(struct my_fileset *fs)
 			__func__, fs->setfile, strerror(errno));
 		return (false);
 	}
+	/* more than one change may be made within a second */
+	if (fs->last_mtime_nsec != ss.st_mtim.tv_nsec) {
+		fs->last_mtime_nsec = ss.st_mtim.tv_nsec;
+		forget_setfile(fs);
+	}
 	if (fs->last_ino != ss.st_ino || fs->last_mtime != ss.st_mtime) {
 		fs->last_ino = ss.st_ino;
 		fs->last_mtime = ss.st_mtime;
@@ -79,14 +93,6 @@ setfile_updated(struct my_fileset *fs)
 	return (false);
 }
 
-/* have the set file read at the next reload, whether or not it changes */
-static void
-forget_setfile(struct my_fileset *fs)
-{
-	fs->last_ino = 0;
-	fs->last_mtime = 0;
-}
-
 static int
 cmp_fileset_entry(const void *a, const void *b)
 {
-- 
2.43.0


From b35b735017cc9db39afb4f3f8e496d19931bed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:58 +0000
Subject: [PATCH 73/73] fix: a whole long option name is accepted even if it
 begins another one

---
 libmy/argv.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libmy/argv.c b/libmy/argv.c
index 7875613..340efe2 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2580,6 +2580,21 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       
       match_p = NULL;
       
+      /* a whole long option is never ambiguous, even if it starts another */
+      for (grid_p = grid; grid_p->ar_short_arg != ARGV_LAST; grid_p++) {
+	if (grid_p->ar_long_arg != NULL
+	    && strcmp(*arg_p + LONG_PREFIX_LENGTH,
+		      grid_p->ar_long_arg) == 0) {
+	  match_p = grid_p;
+	  break;
+	}
+      }
+      if (match_p != NULL) {
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
+		     okay_bp);
+	continue;
+      }
+      
       /* run though long options looking for a match */
       for (grid_p = grid; grid_p->ar_short_arg != ARGV_LAST; grid_p++) {
 	if (grid_p->ar_long_arg == NULL) {
-- 
2.43.0

