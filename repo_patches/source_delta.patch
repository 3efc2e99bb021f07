From 73bd460a94ce98e2ad3177a35d0976e5808d450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:37:59 +0000
Subject: [PATCH 01/31] fix: return 0 for an invalid payload offset

get_payload_offset() is documented to return 0 when the packet has no
payload or the offset is invalid. It added the adaptation field length
without a check: lengths above 250 overflowed the u8 result, which panics
with overflow checks and gives a wrong offset without them.
---
 src/psi/mod.rs | 2 +-
 src/ts/mod.rs  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index ad66cd6..e69b645 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -107,7 +107,7 @@ impl Psi {
         }
 
         let ts_offset = ts::get_payload_offset(ts) as usize;
-        if ts_offset >= 188 {
+        if ts_offset == 0 {
             self.clear();
             return;
         }
diff --git a/src/ts/mod.rs b/src/ts/mod.rs
index aad30df..201e2cc 100644
--- a/src/ts/mod.rs
+++ b/src/ts/mod.rs
@@ -80,8 +80,12 @@ pub fn is_adaptation(ts: &[u8]) -> bool { (ts[3] & 0x20) != 0x00 }
 /// In the PSI packets the `pointer field` is a part of payload, so it do not sums.
 #[inline]
 pub fn get_payload_offset(ts: &[u8]) -> u8 {
-    if ! is_adaptation(ts) {
+    if ! is_payload(ts) {
+        0
+    } else if ! is_adaptation(ts) {
         4
+    } else if get_adaptation_size(ts) as usize >= PACKET_SIZE - 4 - 1 {
+        0
     } else {
         4 + 1 + get_adaptation_size(ts)
     }
-- 
2.43.0


From 25899b867374ea13f15ed23c6a1088b3a66941e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:00 +0000
Subject: [PATCH 02/31] fix: check the PSI pointer field against the packet end

The pointer field limit ignored the adaptation field. A packet with both
an adaptation field and a large pointer field made Psi::mux() slice past
the end of the packet and panic.
---
 src/psi/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e69b645..e5b9a47 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -116,11 +116,11 @@ impl Psi {
 
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
-            if pointer_field >= 183 {
+            let ts_offset = ts_offset + 1;
+            if ts_offset + pointer_field >= 188 {
                 self.clear();
                 return;
             }
-            let ts_offset = ts_offset + 1;
 
             if pointer_field == 0 || cc != (self.cc + 1) & 0x0F {
                 self.clear();
-- 
2.43.0


From cf6c379617307a933b919d25380f357a4c0d9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:01 +0000
Subject: [PATCH 03/31] fix: reassemble sections that share a packet

Psi::mux() lost a section that starts in the packet where the previous
one ends when it continues into a packet without a payload start. The
previous section was reported a second time instead. A section header
split into fragments shorter than 3 bytes was lost as well, and packets
without a payload start were taken as the begin of a section after a gap.

Drop the completed section when the next packet arrives and keep the
bytes of the section that follows it. A section in progress has to end at
the pointer field, otherwise it is dropped.
---
 src/psi/mod.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index e5b9a47..41b3656 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -114,6 +114,12 @@ impl Psi {
 
         let cc = ts::get_cc(ts);
 
+        // drop PSI completed with the previous packet, keep the begin of the next PSI
+        if self.size != 0 && self.buffer.len() >= self.size {
+            self.buffer.drain(0 .. self.size);
+            self.size = 0;
+        }
+
         if ts::is_pusi(ts) {
             let pointer_field = ts[ts_offset] as usize;
             let ts_offset = ts_offset + 1;
@@ -127,28 +133,28 @@ impl Psi {
             }
 
             // TODO: save pid into self.pid
-            if self.buffer.is_empty() {
-                self.push(&ts[ts_offset + pointer_field .. 188]);
-                if self.size != 0 && self.buffer.len() > self.size {
+            if ! self.buffer.is_empty() {
+                // end of the current PSI
+                self.push(&ts[ts_offset .. ts_offset + pointer_field]);
+                if self.size == 0 || self.buffer.len() < self.size {
+                    self.clear();
+                } else {
                     self.buffer.resize(self.size, 0x00);
                 }
-            } else {
-                if self.size != 0 && self.buffer.len() > self.size {
-                    self.buffer.drain(0 .. self.size);
-                    self.size = 0;
-                }
-                self.push(&ts[ts_offset .. 188]);
             }
+            self.push(&ts[ts_offset + pointer_field .. 188]);
         } else {
-            if cc != (self.cc + 1) & 0x0F {
+            if self.buffer.is_empty() || cc != (self.cc + 1) & 0x0F {
                 self.clear();
                 return;
             }
 
             self.push(&ts[ts_offset .. 188]);
-            if self.buffer.len() > self.size {
-                self.buffer.resize(self.size, 0x00);
-            }
+        }
+
+        // skip stuffing bytes
+        if self.size != 0 && self.buffer.len() > self.size && self.buffer[self.size] == 0xFF {
+            self.buffer.resize(self.size, 0x00);
         }
 
         self.cc = cc;
-- 
2.43.0


From c6d925fc841beb7754bb16843f6c336ee8e0b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:02 +0000
Subject: [PATCH 04/31] fix: do not parse an incomplete TDT

TDT has no CRC, so Tdt::parse() has to check the section length itself.
A TDT split between two packets made it read past the buffer and panic.
---
 src/psi/tdt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/tdt.rs b/src/psi/tdt.rs
index b491402..63a1b62 100644
--- a/src/psi/tdt.rs
+++ b/src/psi/tdt.rs
@@ -33,6 +33,7 @@ impl Tdt {
     #[inline]
     fn check(&self, psi: &Psi) -> bool {
         psi.size == 8 &&
+        psi.buffer.len() >= psi.size &&
         psi.buffer[0] == 0x70
     }
 
-- 
2.43.0


From 502df319681e2817b8f0a380d78c58b120a8a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:03 +0000
Subject: [PATCH 05/31] fix: parse PMT program descriptors from the right
 offset

The program descriptors start at byte 12 of the section, Pmt::parse()
started one byte earlier and got wrong descriptors. A descriptors length
that exceeds the section made it panic, ignore such section.
---
 src/psi/pmt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psi/pmt.rs b/src/psi/pmt.rs
index 16d3eb2..7bd6eb0 100644
--- a/src/psi/pmt.rs
+++ b/src/psi/pmt.rs
@@ -133,12 +133,16 @@ impl Pmt {
             return;
         }
 
+        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.pnr = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
         self.pcr = psi.buffer[8 ..].get_u16() & 0x1FFF;
 
-        let descriptors_len = (psi.buffer[10 ..].get_u16() & 0x0FFF) as usize;
-        self.descriptors.parse(&psi.buffer[11 .. 11 + descriptors_len]);
+        self.descriptors.parse(&psi.buffer[12 .. 12 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
         let mut skip = 0;
-- 
2.43.0


From 617a677b3de4e3e9f1283bc978f619744e624a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:38:04 +0000
Subject: [PATCH 06/31] fix: ignore NIT and TOT with an invalid descriptors
 length

A descriptors length that exceeds the section made Nit::parse() and
Tot::parse() panic.
---
 src/psi/nit.rs | 6 +++++-
 src/psi/tot.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/psi/nit.rs b/src/psi/nit.rs
index cb0060e..e118552 100644
--- a/src/psi/nit.rs
+++ b/src/psi/nit.rs
@@ -101,11 +101,15 @@ impl Nit {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 12 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.table_id = psi.buffer[0];
         self.network_id = psi.buffer[3 ..].get_u16();
         self.version = (psi.buffer[5] & 0x3E) >> 1;
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
 
         let ptr = &psi.buffer[12 + descriptors_len .. psi.size - 4];
diff --git a/src/psi/tot.rs b/src/psi/tot.rs
index a164000..927e7cd 100644
--- a/src/psi/tot.rs
+++ b/src/psi/tot.rs
@@ -45,10 +45,14 @@ impl Tot {
             return;
         }
 
+        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
+        if 10 + descriptors_len > psi.size - 4 {
+            return;
+        }
+
         self.time = psi.buffer[3 ..].get_u16().from_mjd() +
             u64::from(psi.buffer[5 ..].get_u24().from_bcd_time());
 
-        let descriptors_len = (psi.buffer[8 ..].get_u16() & 0x0FFF) as usize;
         self.descriptors.parse(&psi.buffer[10 .. 10 + descriptors_len]);
     }
 }
-- 
2.43.0


From 9655fc52787dc21381b9a5c5d8b9024f062bb023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:05 +0000
Subject: [PATCH 07/31] fix: validate string lengths in descriptors 0x48, 0x4D,
 0x4E

A string length that exceeds the descriptor made the validation itself
read past the descriptor and panic. Such descriptor is kept as raw data.
---
 src/psi/descriptors/x48.rs |  3 +++
 src/psi/descriptors/x4d.rs |  3 +++
 src/psi/descriptors/x4e.rs | 15 +++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/psi/descriptors/x48.rs b/src/psi/descriptors/x48.rs
index c3831f1..65d9675 100644
--- a/src/psi/descriptors/x48.rs
+++ b/src/psi/descriptors/x48.rs
@@ -34,6 +34,9 @@ impl Desc48 {
         }
 
         let provider_length = usize::from(slice[3]);
+        if slice.len() < MIN_SIZE + provider_length {
+            return false;
+        }
         let name_length = usize::from(slice[4 + provider_length]);
 
         usize::from(slice[1]) == MIN_SIZE - 2 + provider_length + name_length
diff --git a/src/psi/descriptors/x4d.rs b/src/psi/descriptors/x4d.rs
index 35f87ca..9265551 100644
--- a/src/psi/descriptors/x4d.rs
+++ b/src/psi/descriptors/x4d.rs
@@ -34,6 +34,9 @@ impl Desc4D {
         }
 
         let event_name_length = usize::from(slice[5]);
+        if slice.len() < MIN_SIZE + event_name_length {
+            return false;
+        }
         let text_length = usize::from(slice[6 + event_name_length]);
         usize::from(slice[1]) == MIN_SIZE - 2 + event_name_length + text_length
     }
diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index 762bc3c..ec8248a 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -42,6 +42,21 @@ impl Desc4E {
         }
 
         let length_of_items = usize::from(slice[6]);
+        if slice.len() < MIN_SIZE + length_of_items {
+            return false;
+        }
+
+        // each item is a pair of the sized strings
+        let mut items = &slice[7 .. 7 + length_of_items];
+        while ! items.is_empty() {
+            for _ in 0 .. 2 {
+                if items.is_empty() || items.len() < 1 + usize::from(items[0]) {
+                    return false;
+                }
+                items = &items[1 + usize::from(items[0]) ..];
+            }
+        }
+
         let text_length = usize::from(slice[7 + length_of_items]);
         usize::from(slice[1]) == MIN_SIZE - 2 + length_of_items + text_length
     }
-- 
2.43.0


From 1067002ada17562ac6b39165b41795c47260a60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:06 +0000
Subject: [PATCH 08/31] fix: count item length bytes in the size of descriptor
 0x4E

Each item has two length bytes that were not counted. The descriptor with
items was assembled with a wrong length, so the receiver lost it and all
descriptors after it.
---
 src/psi/descriptors/x4e.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/descriptors/x4e.rs b/src/psi/descriptors/x4e.rs
index ec8248a..f300512 100644
--- a/src/psi/descriptors/x4e.rs
+++ b/src/psi/descriptors/x4e.rs
@@ -103,7 +103,7 @@ impl Desc for Desc4E {
     fn size(&self) -> usize {
         let mut items_size = 0;
         for (item_desc, item_text) in &self.items {
-            items_size += item_desc.size() + item_text.size();
+            items_size += 1 + item_desc.size() + 1 + item_text.size();
         }
         MIN_SIZE + items_size + self.text.size()
     }
-- 
2.43.0


From 22925310b71a469485c13e94044fb78f24f7453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:06 +0000
Subject: [PATCH 09/31] fix: accept any received value as BCD or MJD

Both are decoded from received data. A digit above 9, such as 0xFF.. for
an undefined EIT start time, or a date before 1970 made the parser panic
in builds with debug assertions.
---
 src/psi/utils/bcd.rs | 2 --
 src/psi/utils/mjd.rs | 3 +--
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index 372826d..cd165e7 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -17,8 +17,6 @@ pub trait BCD {
 impl BCD for u8 {
     #[inline]
     fn from_bcd(self) -> Self {
-        debug_assert!((self & 0xF0) < 0xA0);
-        debug_assert!((self & 0x0F) < 0x0A);
         self - (self >> 4) * 6
     }
 
diff --git a/src/psi/utils/mjd.rs b/src/psi/utils/mjd.rs
index a261d97..e6fcfa1 100644
--- a/src/psi/utils/mjd.rs
+++ b/src/psi/utils/mjd.rs
@@ -17,8 +17,7 @@ pub trait MJDTo {
 impl MJDFrom for u16 {
     #[inline]
     fn from_mjd(self) -> u64 {
-        debug_assert!(self >= 40587);
-        (u64::from(self) - 40587) * 86400
+        u64::from(self).saturating_sub(40587) * 86400
     }
 }
 
-- 
2.43.0


From 6f79668aa45df3a4d665934ac74b3c1185541b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:07 +0000
Subject: [PATCH 10/31] fix: decode local time offsets of 5 hours and more

Hours were converted to minutes in u8, so 05:00 and above overflowed.
---
 src/psi/utils/bcd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psi/utils/bcd.rs b/src/psi/utils/bcd.rs
index cd165e7..4e1595e 100644
--- a/src/psi/utils/bcd.rs
+++ b/src/psi/utils/bcd.rs
@@ -65,7 +65,7 @@ pub trait BCDTime {
 impl BCDTime for u16 {
     #[inline]
     fn from_bcd_time(self) -> Self {
-        u16::from(u8::from_bcd((self >> 8) as u8) * 60) +
+        u16::from(u8::from_bcd((self >> 8) as u8)) * 60 +
         u16::from(u8::from_bcd(self as u8))
     }
 
-- 
2.43.0


From 0c4caba2106fe2c733d805f8a64fc229e4b3d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:08 +0000
Subject: [PATCH 11/31] fix: prevent overflow in delivery system descriptors

A received value out of the range of the field made the parser panic with
overflow checks.
---
 src/psi/descriptors/x43.rs | 2 +-
 src/psi/descriptors/x44.rs | 2 +-
 src/psi/descriptors/x5a.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psi/descriptors/x43.rs b/src/psi/descriptors/x43.rs
index 0692971..8dec5a0 100644
--- a/src/psi/descriptors/x43.rs
+++ b/src/psi/descriptors/x43.rs
@@ -51,7 +51,7 @@ impl Desc43 {
     pub fn parse(slice: &[u8]) -> Self {
         Self {
             frequency: slice[2 ..].get_u32().from_bcd() * 10,
-            orbital_position: slice[6 ..].get_u16().from_bcd() * 6,
+            orbital_position: slice[6 ..].get_u16().from_bcd().saturating_mul(6),
             west_east_flag: (slice[8] & 0b1000_0000) >> 7,
             polarization: (slice[8] & 0b0110_0000) >> 5,
             rof: (slice[8] & 0b0001_1000) >> 3,
diff --git a/src/psi/descriptors/x44.rs b/src/psi/descriptors/x44.rs
index 2375d9c..c540d77 100644
--- a/src/psi/descriptors/x44.rs
+++ b/src/psi/descriptors/x44.rs
@@ -41,7 +41,7 @@ impl Desc44 {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32().from_bcd() * 100,
+            frequency: slice[2 ..].get_u32().from_bcd().saturating_mul(100),
             fec_outer: slice[7] & 0x0F,
             modulation: slice[8],
             symbol_rate: slice[9 ..].get_u24().from_bcd(),
diff --git a/src/psi/descriptors/x5a.rs b/src/psi/descriptors/x5a.rs
index a8e0e49..10e6b55 100644
--- a/src/psi/descriptors/x5a.rs
+++ b/src/psi/descriptors/x5a.rs
@@ -60,7 +60,7 @@ impl Desc5A {
 
     pub fn parse(slice: &[u8]) -> Self {
         Self {
-            frequency: slice[2 ..].get_u32() * 10,
+            frequency: slice[2 ..].get_u32().saturating_mul(10),
             bandwidth: (slice[6] & 0b1110_0000) >> 5,
             priority: (slice[6] & 0b0001_0000) >> 4,
             time_slicing: (slice[6] & 0b0000_1000) >> 3,
-- 
2.43.0


From 69cc7b0b78a84ff7f92da1ae31f7606cb6526147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:09 +0000
Subject: [PATCH 12/31] fix: display text with an unknown codepage

StringDVB returned fmt::Error for a codepage it does not know, which makes
to_string() and the Debug output of any received table panic.
---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 3ed2126..581baed 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -103,7 +103,7 @@ impl fmt::Display for StringDVB {
 
         let map = match get_codepage_map(self.codepage) {
             Some(v) => v,
-            None => return Err(fmt::Error),
+            None => return f.write_char('?'),
         };
 
         for &c in &self.data {
-- 
2.43.0


From 1b8a4ccba3d708a1f40de20b9533cb5d4b49de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:10 +0000
Subject: [PATCH 13/31] fix: clone raw descriptors with a known tag

A raw descriptor could have any tag: one that fails the validation is
parsed as raw. Clone selected the type by tag and panicked.
---
 src/psi/descriptors/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/descriptors/mod.rs b/src/psi/descriptors/mod.rs
index 0c85eb4..4539fa2 100644
--- a/src/psi/descriptors/mod.rs
+++ b/src/psi/descriptors/mod.rs
@@ -52,6 +52,10 @@ pub struct Descriptor(Box<dyn Desc>);
 
 impl Clone for Descriptor {
     fn clone(&self) -> Self {
+        if let Some(raw) = self.0.as_any_ref().downcast_ref::<DescRaw>() {
+            return raw.clone().into();
+        }
+
         match self.0.tag() {
             0x09 => self.downcast_ref::<Desc09>().clone().into(),
             0x0A => self.downcast_ref::<Desc0A>().clone().into(),
-- 
2.43.0


From 1604a0653d3ac5879285f64f5ddd6d12c49f11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:11 +0000
Subject: [PATCH 14/31] fix: keep the packet in progress when the source
 returns an error

An Interrupted, WouldBlock or timeout error in the middle of a packet lost
the bytes already read, and the next read() searched for the sync byte
inside of the packet payload. Keep these bytes in the reader and continue
when it is called again.
---
 src/reader/mod.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/reader/mod.rs b/src/reader/mod.rs
index 79c6bce..f127b3b 100644
--- a/src/reader/mod.rs
+++ b/src/reader/mod.rs
@@ -27,6 +27,10 @@ pub trait TsRead: fmt::Debug {
 
 pub struct TsReader<R> {
     inner: R,
+
+    /// Packet in progress, remains if the underlying reader returns an error
+    buf: [u8; ts::PACKET_SIZE],
+    skip: usize,
 }
 
 
@@ -34,6 +38,9 @@ impl<R: fmt::Debug + Read> TsReader<R> {
     pub fn new(inner: R) -> TsReader<R> {
         TsReader {
             inner,
+
+            buf: [0; ts::PACKET_SIZE],
+            skip: 0,
         }
     }
 
@@ -71,26 +78,27 @@ impl<R: fmt::Debug + Read> TsRead for TsReader<R> {
     fn read(&mut self, packet: &mut [u8]) -> io::Result<usize> {
         assert!(packet.len() >= ts::PACKET_SIZE);
 
-        let mut skip = 0;
-
-        while skip == 0 {
-            let x = self.inner.read(&mut packet[.. 1])?;
+        while self.skip == 0 {
+            let x = self.inner.read(&mut self.buf[.. 1])?;
             if x == 0 {
                 return Ok(0)
             }
-            if ts::is_sync(packet) {
-                skip = 1;
+            if ts::is_sync(&self.buf) {
+                self.skip = 1;
             }
         }
 
-        while skip != ts::PACKET_SIZE {
-            let x = self.inner.read(&mut packet[skip .. ts::PACKET_SIZE])?;
+        while self.skip != ts::PACKET_SIZE {
+            let x = self.inner.read(&mut self.buf[self.skip ..])?;
             if x == 0 {
                 return Ok(0)
             }
-            skip += x;
+            self.skip += x;
         }
 
+        self.skip = 0;
+        packet[.. ts::PACKET_SIZE].copy_from_slice(&self.buf);
+
         self.parse(packet);
 
         Ok(ts::PACKET_SIZE)
-- 
2.43.0


From 7863a6f31dd8a3c340db897c417a03614d3dac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:12 +0000
Subject: [PATCH 15/31] fix: do not lose a packet on a read into an empty
 buffer

TsDrain read a packet from the source before it looked at the buffer. With
an empty buffer the packet was dropped.
---
 src/reader/drain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader/drain.rs b/src/reader/drain.rs
index db4a198..7ac60c6 100644
--- a/src/reader/drain.rs
+++ b/src/reader/drain.rs
@@ -54,6 +54,10 @@ impl<R: TsRead> TsDrain<R> {
 
 impl<R: TsRead> Read for TsDrain<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
         if self.pos == 0 {
             if buf.len() >= ts::PACKET_SIZE {
                 return self.inner.read(buf);
-- 
2.43.0


From 75d18a07d686c6da2104d2b99d896c098cecd738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:13 +0000
Subject: [PATCH 16/31] fix: assemble PAT with more than 253 programs

Programs that did not fit into the first section were dropped. Put them
into the next sections as all other tables do.
---
 src/psi/pat.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/psi/pat.rs b/src/psi/pat.rs
index ddb4f2d..b8901e8 100644
--- a/src/psi/pat.rs
+++ b/src/psi/pat.rs
@@ -95,22 +95,27 @@ impl Pat {
             skip += 4;
         }
     }
+
+    fn psi_init(&self) -> Psi {
+        let mut psi = Psi::new(0x00, 8, self.version);
+        psi.buffer[3 ..].set_u16(self.tsid);
+        psi
+    }
 }
 
 
 impl PsiDemux for Pat {
     fn psi_list_assemble(&self) -> Vec<Psi> {
-        let mut psi = Psi::new(0x00, 8, self.version);
-        psi.buffer[3 ..].set_u16(self.tsid);
+        let mut psi_list = vec![self.psi_init()];
 
         for item in &self.items {
-            if psi.buffer.len() + item.size() > PAT_SECTION_SIZE {
-                break;
+            if psi_list.last().unwrap().buffer.len() + item.size() > PAT_SECTION_SIZE {
+                psi_list.push(self.psi_init());
             }
-            item.assemble(&mut psi.buffer);
+            item.assemble(&mut psi_list.last_mut().unwrap().buffer);
         }
 
-        vec![psi]
+        psi_list
     }
 }
 
-- 
2.43.0


From b4dd410684a2adc877f01ffd6dc4a083a52fefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:14 +0000
Subject: [PATCH 17/31] fix: assemble EIT events of 24 hours and more

The duration was wrapped at 24 hours as if it was a time of day. The field
has two digits for hours.
---
 src/psi/eit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 82ee8f8..072684a 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -8,6 +8,7 @@
 use crate::{
     bytes::Bytes,
     psi::{
+        BCD,
         BCDTime,
         MJDFrom,
         MJDTo,
@@ -72,7 +73,8 @@ impl EitItem {
         buffer[skip ..].set_u16(self.event_id);
         buffer[skip + 2 ..].set_u16(self.start.to_mjd());
         buffer[skip + 4 ..].set_u24((self.start as u32).to_bcd_time());
-        buffer[skip + 7 ..].set_u24(self.duration.to_bcd_time());
+        buffer[skip + 7 ..].set_u24(
+            ((self.duration / 3600).to_bcd() << 16) | (self.duration % 3600).to_bcd_time());
 
         let flags_10 = set_bits!(8,
             self.status, 3,
-- 
2.43.0


From f015c637f3194f7cf4e808367efbf3a2a6b24ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:15 +0000
Subject: [PATCH 18/31] fix: assemble EIT schedule with any table_id of the
 range

Sections are numbered from the first table_id of the range, except one
that got the table_id of the source table. With a table_id other than 0x50
or 0x60 its number conflicted with the other sections.
---
 src/psi/eit.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 072684a..482162d 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -241,6 +241,7 @@ impl PsiDemux for Eit {
 
         {
             let mut psi = self.psi_init();
+            psi.buffer[0] = current_table_id;
             psi.buffer[6] = current_section;
             psi_list.push(psi);
         }
-- 
2.43.0


From dc441b4c42f8f61879b7e00f3276402af476b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:16 +0000
Subject: [PATCH 19/31] fix: PTS difference when the counter wraps

The counter has PTS_MAX + 1 values, the difference was one tick short.
---
 src/es/pes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/es/pes.rs b/src/es/pes.rs
index 472b0d0..6cb6a27 100644
--- a/src/es/pes.rs
+++ b/src/es/pes.rs
@@ -79,7 +79,7 @@ pub fn pts_delta(last_pts: u64, current_pts: u64) -> u64 {
     if current_pts >= last_pts {
         current_pts - last_pts
     } else {
-        current_pts + PTS_MAX - last_pts
+        current_pts + PTS_NONE - last_pts
     }
 }
 
-- 
2.43.0


From f8c8524dd798112cb409a52471f2e6b6ec317fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:16 +0000
Subject: [PATCH 20/31] fix: PCR jitter when the counter wraps

The estimated value may exceed PCR_MAX while the received one starts again
from 0. The difference overflowed then, and it was one tick off for all
packets that come earlier than estimated.
---
 src/ts/pcr.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index 8dc1b50..c9b4e03 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -113,16 +113,10 @@ pub fn pcr_to_stc(last_pcr: u64, bytes: u64, last_delta: u64, last_bytes: u64) -
 /// Calculate PCR jitter in ns
 #[inline]
 pub fn pcr_jitter_ns(pcr: u64, stc: u64) -> i64 {
-    let mut result = {
-        if pcr < stc {
-            pcr + PCR_MAX - stc
-        } else {
-            pcr - stc
-        }
-    } as i64;
+    let mut result = (pcr as i64 - stc as i64).rem_euclid(PCR_NONE as i64);
 
     if result > PCR_SYSTEM_CLOCK as i64 {
-        result -= PCR_MAX as i64;
+        result -= PCR_NONE as i64;
     }
 
     result * 1000 / PCR_CLOCK_US as i64
-- 
2.43.0


From 4b84d8b32051b5465f8123ba6f77c255c9c86c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:17 +0000
Subject: [PATCH 21/31] fix: PCR bitrate for an interval less than 1ms

A duplicated packet with PCR gives a zero interval, which ended with a
division by zero.
---
 src/ts/pcr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ts/pcr.rs b/src/ts/pcr.rs
index c9b4e03..e0e8f9c 100644
--- a/src/ts/pcr.rs
+++ b/src/ts/pcr.rs
@@ -136,5 +136,8 @@ pub fn pcr_to_ms(pcr: u64) -> u64 { pcr / PCR_CLOCK_MS }
 /// Claclulate PCR bitrate
 #[inline]
 pub fn pcr_delta_bitrate(delta: u64, bytes: u64) -> u64 {
-    (bytes * 8) / pcr_to_ms(delta)
+    match pcr_to_ms(delta) {
+        0 => 0,
+        ms => (bytes * 8) / ms,
+    }
 }
-- 
2.43.0


From 92f01a446dc040b33514e824ee5b0f83f04b7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:39:18 +0000
Subject: [PATCH 22/31] fix: compare PSI that are empty or not complete yet

The checksum was read from the buffer without a check of its length, so
comparing with Psi::default() or with a PSI in progress panicked.
---
 src/psi/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 41b3656..1a23772 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -61,7 +61,8 @@ impl Default for Psi {
 
 impl PartialEq for Psi {
     fn eq(&self, other: &Psi) -> bool {
-        self.size == other.size && self.get_crc32() == other.get_crc32()
+        self.size == other.size &&
+            self.buffer.get(.. self.size) == other.buffer.get(.. other.size)
     }
 }
 
-- 
2.43.0


From dbe1d476cb14e264add0be3b0ee13e58d72ea13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:42:12 +0000
Subject: [PATCH 23/31] fix: signal the last table_id of EIT schedule that is
 really used

It was calculated from the time of the last event, but sections are also
placed by the number of gaps and full segments. The signalled value could
be less or greater than the last table_id in the stream.
---
 src/psi/eit.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 482162d..816282d 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -205,13 +205,6 @@ impl PsiDemux for Eit {
         let first_item = self.items.first().unwrap();
         let mut midnight = first_item.start / DAY_DURATION * DAY_DURATION;
 
-        // Last table id
-        let last_table_id = {
-            let last_item = self.items.last().unwrap();
-            let service_duration = last_item.start - midnight;
-            let service_segments = service_duration / SEG_DURATION;
-            table_id + (service_segments / 32) as u8
-        };
         let mut current_table_id = self.table_id & 0xF0;
 
         let mut current_section: u8 = 0;
@@ -285,6 +278,7 @@ impl PsiDemux for Eit {
 
         // TODO: fix Segment_last_Section_number
 
+        let last_table_id = psi_list.last().unwrap().buffer[0];
         current_table_id = 0x00;
         let mut last_section_number = 0x00;
 
-- 
2.43.0


From 8e3ed026a5f06e51cc8b60d509c462dd088bc24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:42:13 +0000
Subject: [PATCH 24/31] fix: signal the last section of a segment in EIT
 schedule

Each section of a segment was signalled as the last one.
---
 src/psi/eit.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 816282d..2ea464f 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -276,23 +276,25 @@ impl PsiDemux for Eit {
             item.assemble(&mut psi.buffer);
         }
 
-        // TODO: fix Segment_last_Section_number
-
         let last_table_id = psi_list.last().unwrap().buffer[0];
         current_table_id = 0x00;
         let mut last_section_number = 0x00;
+        let mut segment_last_section_number = 0x00;
 
         // Now current_section is last_section_number
         for psi in psi_list.iter_mut().rev() {
             if psi.buffer[0] != current_table_id {
                 current_table_id = psi.buffer[0];
                 last_section_number = psi.buffer[6];
+                segment_last_section_number = psi.buffer[6];
+            } else if psi.buffer[6] / 8 != segment_last_section_number / 8 {
+                segment_last_section_number = psi.buffer[6];
             }
 
             // Last_Section_number
             psi.buffer[7] = last_section_number;
             // Segment_last_Section_number
-            psi.buffer[12] = psi.buffer[6];
+            psi.buffer[12] = segment_last_section_number;
             // Last_table_id
             psi.buffer[13] = last_table_id;
 
-- 
2.43.0


From 448cb3f6d6ec954dffac629177a75f35d44af668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:30 +0000
Subject: [PATCH 25/31] fix: start the next section when a damaged section ends
 in the same packet

---
 src/psi/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 1a23772..3e71a15 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -141,6 +141,10 @@ impl Psi {
                     self.clear();
                 } else {
                     self.buffer.resize(self.size, 0x00);
+                    // damaged PSI should not hide the next one
+                    if self.buffer[1] & 0x80 != 0 && ! self.check() {
+                        self.clear();
+                    }
                 }
             }
             self.push(&ts[ts_offset + pointer_field .. 188]);
-- 
2.43.0


From bf5de9c97411a3135a8e50e286bf447ef26cd705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:44 +0000
Subject: [PATCH 26/31] fix: drop a section completed together with the
 previous one

Only one section is reported per packet. A second one that ends in the same packet delayed all the sections after it.
---
 src/psi/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 3e71a15..2b21149 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -116,9 +116,13 @@ impl Psi {
         let cc = ts::get_cc(ts);
 
         // drop PSI completed with the previous packet, keep the begin of the next PSI
-        if self.size != 0 && self.buffer.len() >= self.size {
+        while self.size != 0 && self.buffer.len() >= self.size {
             self.buffer.drain(0 .. self.size);
             self.size = 0;
+            if self.buffer.first() == Some(&0xFF) {
+                self.buffer.clear();
+            }
+            self.push(&[]);
         }
 
         if ts::is_pusi(ts) {
-- 
2.43.0


From d210a0c20dfa993cb4b2a3180f2231b1673f4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:36 +0000
Subject: [PATCH 27/31] fix: do not start a section in a packet without the
 pointer field

---
 src/psi/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psi/mod.rs b/src/psi/mod.rs
index 2b21149..074be57 100644
--- a/src/psi/mod.rs
+++ b/src/psi/mod.rs
@@ -159,6 +159,11 @@ impl Psi {
             }
 
             self.push(&ts[ts_offset .. 188]);
+
+            // PSI begins only in the packet with the pointer field
+            if self.size != 0 && self.buffer.len() > self.size {
+                self.buffer.resize(self.size, 0x00);
+            }
         }
 
         // skip stuffing bytes
-- 
2.43.0


From e2cbdc4e0a755b43a4936c0acfc262e08ae2d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:04 +0000
Subject: [PATCH 28/31] fix: truncated UTF-8 text ends with a whole character

---
 src/textcode/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 581baed..bbf3b62 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -242,10 +242,12 @@ impl StringDVB {
 
     pub fn truncate(&mut self, size: usize) {
         if self.data.len() > size {
-            self.data.resize(size, 0);
-            self.data[size - 1] = b'.';
-            self.data[size - 2] = b'.';
-            self.data[size - 3] = b'.';
+            let mut skip = size - 3;
+            while self.codepage == UTF8 && skip > 0 && self.data[skip] & 0xC0 == 0x80 {
+                skip -= 1;
+            }
+            self.data.truncate(skip);
+            self.data.extend_from_slice(b"...");
         }
     }
 
-- 
2.43.0


From 99e0274effd59a7b5ac8be50b64da99a5b0a0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:41 +0000
Subject: [PATCH 29/31] fix: a four byte UTF-8 character is not split

---
 src/textcode/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index bbf3b62..2a56b80 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -269,7 +269,7 @@ impl StringDVB {
         while skip < self.data.len() {
             let mut next = cmp::min(self.data.len(), skip + size);
             if self.codepage == UTF8 && next < self.data.len() {
-                for _ in 1 .. 3 {
+                for _ in 0 .. 3 {
                     if self.data[next] & 0xC0 != 0x80 {
                         break;
                     }
-- 
2.43.0


From 1aa63ee2720c273fea436e277f87f1e2fe9b625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:35 +0000
Subject: [PATCH 30/31] fix: characters above U+FFFF are not taken for others

---
 src/textcode/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/textcode/mod.rs b/src/textcode/mod.rs
index 2a56b80..05c1406 100644
--- a/src/textcode/mod.rs
+++ b/src/textcode/mod.rs
@@ -154,14 +154,14 @@ impl StringDVB {
             data: {
                 let mut data: Vec<u8> = Vec::new();
                 for c in s.chars() {
-                    let c = c as u16;
+                    let c = c as u32;
                     if c <= 0x007F {
                         data.push(c as u8);
                     } else if c >= 0x00A0 {
-                        if let Some(v) = map.iter().position(|&u| u == c) {
+                        if let Some(v) = map.iter().position(|&u| u32::from(u) == c) {
                             data.push((v as u8) + 0xA0);
                         } else {
-                            match c as u16 {
+                            match c {
                                 0x00AB | 0x00BB => data.push(b'"'), /* LEFT/RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK */
                                 0x2018 | 0x2019 => data.push(b'\''), /* LEFT/RIGHT SINGLE QUOTATION MARK */
                                 0x201B => data.push(b'\''), /* SINGLE HIGH-REVERSED-9 QUOTATION MARK */
-- 
2.43.0


From 392403dafa0030d7a8acbf60e19b29fdac07db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:27 +0000
Subject: [PATCH 31/31] fix: place EIT schedule events after a gap into their
 segment

---
 src/psi/eit.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/psi/eit.rs b/src/psi/eit.rs
index 2ea464f..fc8f168 100644
--- a/src/psi/eit.rs
+++ b/src/psi/eit.rs
@@ -239,15 +239,17 @@ impl PsiDemux for Eit {
             psi_list.push(psi);
         }
 
-        for item in &self.items {
-            let psi = psi_list.last_mut().unwrap();
-
-            if item.start >= next_midnight {
+        'items: for item in &self.items {
+            // Go to the segment of the event, each segment on the way has a section
+            while item.start >= next_midnight {
                 midnight = next_midnight;
                 next_midnight = midnight + SEG_DURATION;
 
                 current_section = current_section / 8 * 8;
                 if current_section == 248 {
+                    if current_table_id & 0x0F == 0x0F {
+                        break 'items;
+                    }
                     current_section = 0;
                     current_table_id += 1;
                 } else {
@@ -257,11 +259,11 @@ impl PsiDemux for Eit {
                 let mut psi = self.psi_init();
                 psi.buffer[0] = current_table_id;
                 psi.buffer[6] = current_section;
-                item.assemble(&mut psi.buffer);
                 psi_list.push(psi);
-                continue;
             }
 
+            let psi = psi_list.last_mut().unwrap();
+
             if item.size() + psi.buffer.len() >= EIT_SECTION_SIZE {
                 current_section = current_section + 1;
 
-- 
2.43.0

