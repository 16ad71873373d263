From 3d316abf01b98e60f4d1abc77b82e53546255851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 01/12] fix: ignore surplus parameter registers of
 UR20-4AI-TC-DIAG instead of panicking

---
 src/ur20_4ai_tc_diag.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ur20_4ai_tc_diag.rs b/src/ur20_4ai_tc_diag.rs
index 89116d3..1114deb 100644
--- a/src/ur20_4ai_tc_diag.rs
+++ b/src/ur20_4ai_tc_diag.rs
@@ -163,6 +163,7 @@ fn parameters_from_raw_data(data: &[u16]) -> Result<(ModuleParameters, [ChannelP
 
     let channel_parameters = data[1..]
         .chunks_exact(7)
+        .take(4)
         .map(|data| {
             Ok(ChannelParameters {
                 measurement_range: FromPrimitive::from_u16(data[0])
-- 
2.43.0


From f4a8cea9bdca08912cb4ddcb4c29233fc5f10628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 02/12] fix: UR20-4AI-UI-16 reports its own module type

---
 src/ur20_ai_ui_generic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_ai_ui_generic.rs b/src/ur20_ai_ui_generic.rs
index 5dc9d9d..03f5589 100644
--- a/src/ur20_ai_ui_generic.rs
+++ b/src/ur20_ai_ui_generic.rs
@@ -94,7 +94,7 @@ impl<Variant: AIVariant> Default for Mod<Variant> {
 
 impl<Variant: AIVariant> Module for Mod<Variant> {
     fn module_type(&self) -> ModuleType {
-        ModuleType::UR20_4AI_UI_12
+        Variant::MODULE_TYPE
     }
 }
 
-- 
2.43.0


From e708047761e95479fca3badebd7b0e31c124a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 03/12] fix: parse the module category PF

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9398010..50cd38d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -635,6 +635,7 @@ impl FromStr for ModuleCategory {
             "TC"  => TC,
             "COM" => COM,
             "RO"  => RO,
+            "PF"  => PF,
             _ => {
                 return Err(Error::UnknownCategory);
             }
-- 
2.43.0


From 723cf7800f470e362fb59cf8d9ec85be38e05346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 04/12] fix: UR20-PF-O-1DI-SIL has one channel

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 50cd38d..19f1da1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -462,10 +462,10 @@ impl ModuleType {
         match *self {
             UR20_PF_I               |
             UR20_PF_O               |
-            UR20_PF_O_1DI_SIL       |
             UR20_PF_O_2DI_SIL       |
             UR20_PF_O_2DI_DELAY_SIL => 0,
 
+            UR20_PF_O_1DI_SIL       |
             UR20_1CNT_100_1DO       |
             UR20_1CNT_500           |
             UR20_1COM_232_485_422   |
-- 
2.43.0


From e1300d06a018ececf17cce435dd83ae0671cef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 05/12] fix: round analog output values to the nearest code

---
 src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 53feab3..67ec60f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -65,7 +65,7 @@ pub fn analog_ui_value_to_u16(v: f32, range: &AnalogUIRange, format: &DataFormat
         V2To10 => factor * (v - 2.0) / 8.0,
         Disabled => 0.0,
     };
-    v as i16 as u16
+    v.round() as i16 as u16
 }
 
 pub fn u16_to_analog_ui_value(
-- 
2.43.0


From 2aa4415556fde27f796136e2e4f187b0bc3aaaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 06/12] fix: reject output offsets below the process output
 data instead of overflowing

---
 src/ur20_fbc_mod_tcp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ca11b5b..c235584 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -388,7 +388,7 @@ fn prepare_raw_data_to_process(
     data: &[u16],
 ) -> Result<Vec<u16>> {
     let (start, bit) = to_register_address(offset);
-    let start = (start - addr) as usize;
+    let start = start.checked_sub(addr).ok_or(Error::ModuleOffset)? as usize;
     let word_count = {
         let cnt = byte_count / 2;
         if cnt == 0 { 1 } else { cnt }
-- 
2.43.0


From 29473d44917b28dd5cceff473efb4763e949a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 07/12] fix: reject odd byte offsets of modules wider than one
 byte instead of truncating their data

---
 src/ur20_fbc_mod_tcp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index c235584..5f41eb2 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -401,7 +401,7 @@ fn prepare_raw_data_to_process(
 
     match bit {
         0 => Ok(output.to_vec()),
-        8 => Ok(shift_data(output)),
+        8 if byte_count < 2 => Ok(shift_data(output)),
         _ => Err(Error::ModuleOffset),
     }
 }
-- 
2.43.0


From b6794d3df377df8f62869aeb645618aebbfd7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:33 +0000
Subject: [PATCH 08/12] fix: reject odd byte output offsets of modules not
 exactly one byte wide

---
 src/ur20_fbc_mod_tcp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 5f41eb2..85dfa33 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -434,7 +434,7 @@ pub fn process_output_values(
                     out.extend_from_slice(&data);
                 }
                 8 => {
-                    if out.len() != start + 1 {
+                    if out.len() != start + 1 || m.process_output_byte_count() != 1 {
                         return Err(Error::ModuleOffset);
                     }
                     let shared_low_byte = out[start] & 0x00FF;
-- 
2.43.0


From dd61c7525aa7868897636a12fd6c123954f4b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:35 +0000
Subject: [PATCH 09/12] fix: reject two modules in the same output byte instead
 of overwriting

---
 src/ur20_fbc_mod_tcp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 85dfa33..ba764ce 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -416,6 +416,8 @@ pub fn process_output_values(
     }
 
     let mut out = vec![];
+    // Whether the high byte of the last register does not belong to any module yet.
+    let mut high_byte_free = false;
 
     for (i, &(m, offset)) in modules.iter().enumerate() {
         if let Some(out_offset) = offset.output {
@@ -432,9 +434,10 @@ pub fn process_output_values(
                         return Err(Error::ModuleOffset);
                     }
                     out.extend_from_slice(&data);
+                    high_byte_free = m.process_output_byte_count() == 1;
                 }
                 8 => {
-                    if out.len() != start + 1 || m.process_output_byte_count() != 1 {
+                    if !high_byte_free || out.len() != start + 1 || m.process_output_byte_count() != 1 {
                         return Err(Error::ModuleOffset);
                     }
                     let shared_low_byte = out[start] & 0x00FF;
@@ -442,6 +445,7 @@ pub fn process_output_values(
                     let shared_high_byte = u16::from(buf[0]) << 8;
                     let word = shared_high_byte | shared_low_byte;
                     out[start] = word;
+                    high_byte_free = false;
                 }
                 _ => {
                     return Err(Error::ModuleOffset);
-- 
2.43.0


From ca488351f349bdbb4fd19c769eb522a240326a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 10/12] fix: track the transmission counter of each
 communication module separately

---
 src/ur20_fbc_mod_tcp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index ba764ce..40eeb4b 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -82,8 +82,8 @@ pub struct Coupler {
     offsets: Vec<ModuleOffset>,
     /// statefull message processors
     processors: HashMap<usize, ur20_1com_232_485_422::MessageProcessor>,
-    /// Last transmission counter  state
-    last_tx_cnt: usize,
+    /// Last transmission counter state of each communication module
+    last_tx_cnt: HashMap<usize, usize>,
 }
 
 /// Raw config data to create a coupler instance.
@@ -202,7 +202,7 @@ impl Coupler {
             in_values: vec![],
             out_values: vec![],
             write: HashMap::new(),
-            last_tx_cnt: 0,
+            last_tx_cnt: HashMap::new(),
             modules,
             offsets,
             processors,
@@ -269,10 +269,10 @@ impl Coupler {
                         out_bytes.insert(m_nr, ChannelValue::None);
                         in_bytes.insert(m_nr, ChannelValue::None);
 
-                        if !out_v.data.is_empty() && out_v.tx_cnt != self.last_tx_cnt {
+                        let last_tx_cnt = self.last_tx_cnt.insert(m_nr, out_v.tx_cnt).unwrap_or(0);
+                        if !out_v.data.is_empty() && out_v.tx_cnt != last_tx_cnt {
                             out_bytes.insert(m_nr, ChannelValue::Bytes(out_v.data.clone()));
                         }
-                        self.last_tx_cnt = out_v.tx_cnt;
 
                         if let Some(ChannelValue::Bytes(ref data)) = self.write.remove(&Address {
                             module: m_nr,
-- 
2.43.0


From d01fd3f7013a8c89b2c2352fd8b92e872fbace33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 11/12] fix: report missing channel parameters when decoding
 analog outputs instead of panicking

---
 src/ur20_4ao_ui_16.rs      | 4 ++++
 src/ur20_4ao_ui_16_diag.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ur20_4ao_ui_16.rs b/src/ur20_4ao_ui_16.rs
index fbdac93..0a552bd 100644
--- a/src/ur20_4ao_ui_16.rs
+++ b/src/ur20_4ao_ui_16.rs
@@ -57,6 +57,10 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
diff --git a/src/ur20_4ao_ui_16_diag.rs b/src/ur20_4ao_ui_16_diag.rs
index d2c9e4d..bbeb459 100644
--- a/src/ur20_4ao_ui_16_diag.rs
+++ b/src/ur20_4ao_ui_16_diag.rs
@@ -59,6 +59,10 @@ impl ProcessModbusTcpData for Mod {
         if data.len() != 4 {
             return Err(Error::BufferLength);
         }
+
+        if self.ch_params.len() != 4 {
+            return Err(Error::ChannelParameter);
+        }
         Ok(data
             .iter()
             .enumerate()
-- 
2.43.0


From e69e0bdb06e2b06b04a3b9bb326f14379c0a7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:08 +0000
Subject: [PATCH 12/12] fix: keep the data of the other modules when a pending
 value can't be encoded

A pending value of the wrong kind made Coupler::next fail after other modules
had already handed over their pending values and serial frames, which were lost.
---
 src/ur20_fbc_mod_tcp.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ur20_fbc_mod_tcp.rs b/src/ur20_fbc_mod_tcp.rs
index 40eeb4b..865f1bc 100644
--- a/src/ur20_fbc_mod_tcp.rs
+++ b/src/ur20_fbc_mod_tcp.rs
@@ -258,6 +258,27 @@ impl Coupler {
         self.in_values = process_input_data(&infos, process_input)?;
         self.out_values = process_output_data(&infos, process_output)?;
 
+        // A pending value its module can't encode must not cost the other modules their data.
+        for (m_nr, (m, offset)) in infos.iter().enumerate() {
+            if offset.output.is_none() || self.processors.contains_key(&m_nr) {
+                continue;
+            }
+            let mut values = self.out_values[m_nr].clone();
+            for (channel, value) in values.iter_mut().enumerate() {
+                let addr = Address {
+                    module: m_nr,
+                    channel,
+                };
+                if let Some(v) = self.write.get(&addr) {
+                    *value = v.clone();
+                }
+            }
+            if let Err(err) = m.process_output_values(&values) {
+                self.write.retain(|addr, _| addr.module != m_nr);
+                return Err(err);
+            }
+        }
+
         let mut next_out_values = self.out_values.clone();
         let mut in_bytes = HashMap::new();
         let mut out_bytes = HashMap::new();
-- 
2.43.0

