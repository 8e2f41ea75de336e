From 98a4edc3f8043e5da830d26b76e5fa9972b40c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 01/24] fix: MetricName::try_from_str accepted hyphens

---
 core/src/metric/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/name.rs b/core/src/metric/name.rs
index 8a4aa4c..92d10c3 100644
--- a/core/src/metric/name.rs
+++ b/core/src/metric/name.rs
@@ -83,7 +83,7 @@ fn try_assert_metric_name(value: &str) -> Result<(), InvalidMetricName> {
     }
 
     value.bytes().try_fold((), |(), b| match b {
-        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'_' | b':' => Ok(()),
+        b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'_' | b':' => Ok(()),
         _ => Err(InvalidMetricName::InvalidChars),
     })?;
 
-- 
2.43.0


From c128162305840e9f1d569a8e5d58f6b54fccca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 02/24] fix: counts of 2^63 and above were exposed as negative
 numbers

---
 core/src/metric/group.rs |  1 +
 core/src/text.rs         | 11 +++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/metric/group.rs b/core/src/metric/group.rs
index 7d8a26c..9d2d860 100644
--- a/core/src/metric/group.rs
+++ b/core/src/metric/group.rs
@@ -13,6 +13,7 @@ use super::{
 #[derive(Clone, Copy, Debug)]
 pub enum MetricValue {
     Int(i64),
+    Uint(u64),
     Float(f64),
 }
 
diff --git a/core/src/text.rs b/core/src/text.rs
index 8d4aa75..772e8ca 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -192,6 +192,9 @@ impl<W: Write> TextEncoder<W> {
             MetricValue::Int(x) => self
                 .writer
                 .write_all(itoa::Buffer::new().format(x).as_bytes())?,
+            MetricValue::Uint(x) => self
+                .writer
+                .write_all(itoa::Buffer::new().format(x).as_bytes())?,
             MetricValue::Float(x) => self
                 .writer
                 .write_all(ryu::Buffer::new().format(x).as_bytes())?,
@@ -243,7 +246,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-                MetricValue::Int(val as i64),
+                MetricValue::Uint(val),
             )?;
         }
         let count = val + inf;
@@ -252,7 +255,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
             labels
                 .by_ref()
                 .compose_with(HistogramLabelLe { le: f64::INFINITY }),
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         enc.write_metric_value(
             name.by_ref().with_suffix(Sum),
@@ -262,7 +265,7 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         enc.write_metric_value(
             name.by_ref().with_suffix(Count),
             labels,
-            MetricValue::Int(count as i64),
+            MetricValue::Uint(count),
         )?;
         Ok(())
     }
@@ -285,7 +288,7 @@ impl<W: Write> MetricEncoding<TextEncoder<W>> for CounterState {
         enc.write_metric_value(
             &name,
             labels,
-            MetricValue::Int(self.count.load(core::sync::atomic::Ordering::Relaxed) as i64),
+            MetricValue::Uint(self.count.load(core::sync::atomic::Ordering::Relaxed)),
         )
     }
 }
-- 
2.43.0


From fe8f7ff289e9657a40390252342edcbc0d722816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 03/24] fix: exclusive updates panicked on overflow where
 shared ones wrap

---
 core/src/metric/counter.rs |  6 ++++--
 core/src/metric/gauge.rs   | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/src/metric/counter.rs b/core/src/metric/counter.rs
index 9271b2f..a1fdf83 100644
--- a/core/src/metric/counter.rs
+++ b/core/src/metric/counter.rs
@@ -43,12 +43,14 @@ impl CounterState {
 impl CounterMut<'_> {
     /// Increment the counter value by 1
     pub fn inc(mut self) {
-        *self.count.get_mut() += 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(1);
     }
 
     /// Increment the counter value by `x`
     pub fn inc_by(mut self, x: u64) {
-        *self.count.get_mut() += x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(x);
     }
 }
 
diff --git a/core/src/metric/gauge.rs b/core/src/metric/gauge.rs
index 202b1cd..b46d260 100644
--- a/core/src/metric/gauge.rs
+++ b/core/src/metric/gauge.rs
@@ -90,22 +90,26 @@ impl GaugeLockGuard<'_> {
 impl GaugeMut<'_> {
     /// Increment the gauge value by 1
     pub fn inc(mut self) {
-        *self.count.get_mut() += 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(1);
     }
 
     /// Increment the gauge value by `x`
     pub fn inc_by(mut self, x: i64) {
-        *self.count.get_mut() += x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_add(x);
     }
 
     /// Decrement the gauge value by 1
     pub fn dec(mut self) {
-        *self.count.get_mut() -= 1;
+        let count = self.count.get_mut();
+        *count = count.wrapping_sub(1);
     }
 
     /// Decrement the gauge value by `x`
     pub fn dec_by(mut self, x: i64) {
-        *self.count.get_mut() -= x;
+        let count = self.count.get_mut();
+        *count = count.wrapping_sub(x);
     }
 
     /// Set the gauge value to `x`
-- 
2.43.0


From 1c0b2b30c313b091b43f4e3d4b93cbc7b2d33a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 04/24] fix: Thresholds::with_buckets panicked without buckets

---
 core/src/metric/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 8937b77..58ce0bb 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -137,7 +137,7 @@ impl<const N: usize> Thresholds<N> {
     /// # Panics
     /// Will panic if the buckets are not strictly monotonically increasing
     pub fn with_buckets(buckets: [f64; N]) -> Self {
-        for i in 0..N - 1 {
+        for i in 0..N.saturating_sub(1) {
             assert!(
                 buckets[i] < buckets[i + 1],
                 "consecutive histogram buckets must not decrease or be equal",
-- 
2.43.0


From e9be3db50e80bd902b283dd516f942f26d58e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 05/24] fix: observing NaN incremented the first histogram
 bucket

---
 core/src/metric/histogram.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/metric/histogram.rs b/core/src/metric/histogram.rs
index 58ce0bb..f17be61 100644
--- a/core/src/metric/histogram.rs
+++ b/core/src/metric/histogram.rs
@@ -155,7 +155,9 @@ impl<const N: usize> Thresholds<N> {
 impl<const N: usize> HistogramLockGuard<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        // a NaN is not less than or equal to any bound, so it only counts towards +Inf
+        #[allow(clippy::neg_cmp_op_on_partial_ord)]
+        let bucket = self.metadata().le.partition_point(|le| !(x <= *le));
         self.inner.read().observe(bucket, x);
     }
 
@@ -175,7 +177,9 @@ impl<const N: usize> HistogramLockGuard<'_, N> {
 impl<const N: usize> HistogramMut<'_, N> {
     /// Add a single observation to the [`Histogram`].
     pub fn observe(mut self, x: f64) {
-        let bucket = self.metadata().le.partition_point(|le| x > *le);
+        // a NaN is not less than or equal to any bound, so it only counts towards +Inf
+        #[allow(clippy::neg_cmp_op_on_partial_ord)]
+        let bucket = self.metadata().le.partition_point(|le| !(x <= *le));
         self.inner.get_mut().observe(bucket, x);
     }
 
-- 
2.43.0


From 5ee7dd05e8887e437bc9278f5f2cdaf10fd6a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 06/24] fix: an infinite threshold was exposed as a second +Inf
 bucket

---
 core/src/text.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/text.rs b/core/src/text.rs
index 772e8ca..29947d0 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -243,6 +243,10 @@ impl<W: Write, const N: usize> MetricEncoding<TextEncoder<W>> for HistogramState
         for i in 0..N {
             let le = metadata.get()[i];
             val += buckets[i];
+            if le == f64::INFINITY {
+                // the +Inf bucket is always written below
+                continue;
+            }
             enc.write_metric_value(
                 name.by_ref().with_suffix(Bucket),
                 labels.by_ref().compose_with(HistogramLabelLe { le }),
-- 
2.43.0


From aad760955dc44290d7864b58ff6390806dc674ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 07/24] fix: backslashes and line breaks in help texts were not
 escaped

---
 core/src/text.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 29947d0..8587845 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use bytes::{BufMut, Bytes, BytesMut};
-use memchr::memchr3_iter;
+use memchr::{memchr2_iter, memchr3_iter};
 
 use crate::{
     label::{LabelGroup, LabelGroupVisitor, LabelName, LabelValue, LabelVisitor},
@@ -65,7 +65,7 @@ impl<W: Write> Encoding for TextEncoder<W> {
         self.writer.write_all(b"# HELP ")?;
         name.encode_utf8(&mut self.writer)?;
         self.writer.write_all(b" ")?;
-        self.writer.write_all(help.as_bytes())?;
+        write_help_str(help, &mut self.writer)?;
         self.writer.write_all(b"\n")?;
         Ok(())
     }
@@ -423,6 +423,20 @@ pub(crate) fn write_label_str_value(s: &str, b: &mut impl Write) -> io::Result<(
     b.write_all(&s.as_bytes()[i..])
 }
 
+fn write_help_str(s: &str, b: &mut impl Write) -> io::Result<()> {
+    let mut i = 0;
+    for j in memchr2_iter(b'\\', b'\n', s.as_bytes()) {
+        b.write_all(&s.as_bytes()[i..j])?;
+        match s.as_bytes()[j] {
+            b'\\' => b.write_all(b"\\\\")?,
+            b'\n' => b.write_all(b"\\n")?,
+            _ => unreachable!(),
+        }
+        i = j + 1;
+    }
+    b.write_all(&s.as_bytes()[i..])
+}
+
 struct BytesWriter {
     buf: BytesMut,
 }
-- 
2.43.0


From e55eff5f519fadb2e8e519f803b662e72b53a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 08/24] fix: errors while writing labels in text were swallowed

---
 core/src/text.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/src/text.rs b/core/src/text.rs
index 8587845..82253ae 100644
--- a/core/src/text.rs
+++ b/core/src/text.rs
@@ -155,10 +155,11 @@ impl<W: Write> TextEncoder<W> {
         struct GroupVisitor<'a, W> {
             first: bool,
             writer: &'a mut W,
+            // the first error, after which nothing else is written
+            error: Option<std::io::Error>,
         }
-        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
-            type Output = Result<(), std::io::Error>;
-            fn write_value(
+        impl<W: Write> GroupVisitor<'_, W> {
+            fn try_write_value(
                 &mut self,
                 name: &LabelName,
                 x: &impl LabelValue,
@@ -175,6 +176,14 @@ impl<W: Write> TextEncoder<W> {
                 })
             }
         }
+        impl<W: Write> LabelGroupVisitor for GroupVisitor<'_, W> {
+            type Output = ();
+            fn write_value(&mut self, name: &LabelName, x: &impl LabelValue) {
+                if self.error.is_none() {
+                    self.error = self.try_write_value(name, x).err();
+                }
+            }
+        }
 
         self.state = State::Metrics;
         name.encode_utf8(&mut self.writer)?;
@@ -182,8 +191,12 @@ impl<W: Write> TextEncoder<W> {
         let mut visitor = GroupVisitor {
             first: true,
             writer: &mut self.writer,
+            error: None,
         };
         labels.visit_values(&mut visitor);
+        if let Some(error) = visitor.error {
+            return Err(error);
+        }
         if !visitor.first {
             self.writer.write_all(b"}")?;
         }
-- 
2.43.0


From d61ade19bd41c60f82aafe83b56055d0cf030ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 09/24] fix: protobuf families without metrics were merged into
 the next family or lost

---
 prometheus-proto/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 6aa7b06..3106721 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -41,7 +41,7 @@ impl<W: Write> ProtoEncoder<W> {
     }
 
     fn flush_buf(&mut self) -> Result<(), std::io::Error> {
-        if self.state == State::Metrics {
+        if matches!(self.state, State::Type | State::Metrics) {
             self.state = State::Init;
 
             let len = self.buf.len() - 10;
@@ -63,6 +63,7 @@ impl<W: Write> ProtoEncoder<W> {
 enum State {
     Init,
     Help,
+    Type,
     Metrics,
 }
 
@@ -234,6 +235,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         // COUNTER = 0;
         encoding::int32::encode(3, &0, &mut enc.buf);
 
+        enc.state = State::Type;
+
         Ok(())
     }
 
@@ -289,6 +292,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         // GAUGE = 1;
         encoding::int32::encode(3, &1, &mut enc.buf);
 
+        enc.state = State::Type;
+
         Ok(())
     }
 
@@ -344,6 +349,8 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         // GAUGE = 1;
         encoding::int32::encode(3, &1, &mut enc.buf);
 
+        enc.state = State::Type;
+
         Ok(())
     }
 
-- 
2.43.0


From 778abe5723706cde9208d30a6f1e692a29a425d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 10/24] fix: a failed protobuf write left its family behind in
 the buffer

---
 prometheus-proto/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 3106721..7d1f5fb 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -48,9 +48,11 @@ impl<W: Write> ProtoEncoder<W> {
             let varint_len = encoded_len_varint(len as u64);
             let offset = 10 - varint_len;
             encode_varint(len as u64, &mut &mut self.buf[offset..]);
-            self.writer.write_all(&self.buf[offset..])?;
+            let res = self.writer.write_all(&self.buf[offset..]);
 
+            // even if the write failed: nothing of this family may leak into the next one
             self.buf.resize(10, 0);
+            res?;
         } else if self.buf.is_empty() {
             self.buf.resize(10, 0);
         }
-- 
2.43.0


From eed92a915fc148e86383122d6bc626177da9159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:21 +0000
Subject: [PATCH 11/24] fix: the help of an absent family was given to the next
 protobuf family

---
 prometheus-proto/src/lib.rs | 54 ++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index 7d1f5fb..afe5530 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -37,9 +37,35 @@ impl<W: Write> ProtoEncoder<W> {
     /// Finish the text encoding and extract the bytes to send in a HTTP response.
     pub fn flush(&mut self) -> std::io::Result<()> {
         self.flush_buf()?;
+        self.discard_help();
         self.writer.flush()
     }
 
+    /// Drop a help that no metric family followed
+    fn discard_help(&mut self) {
+        if self.state == State::Help {
+            self.state = State::Init;
+            self.buf.resize(10, 0);
+        }
+    }
+
+    /// Start the family of the given name, unless its help has started it already
+    fn start_family(&mut self, name: &impl MetricNameEncoder) -> Result<(), std::io::Error> {
+        self.flush_buf()?;
+
+        // optional string     name   = 1;
+        let mut key = Vec::new();
+        encode_key(1, LengthDelimited, &mut key);
+        encode_varint(name.encode_len() as u64, &mut key);
+        name.encode_utf8(&mut key)?;
+
+        if !self.buf[10..].starts_with(&key) {
+            self.discard_help();
+            self.buf.extend_from_slice(&key);
+        }
+        Ok(())
+    }
+
     fn flush_buf(&mut self) -> Result<(), std::io::Error> {
         if matches!(self.state, State::Type | State::Metrics) {
             self.state = State::Init;
@@ -94,6 +120,7 @@ impl<W: Write> Encoding for ProtoEncoder<W> {
         help: &str,
     ) -> Result<(), std::io::Error> {
         self.flush_buf()?;
+        self.discard_help();
 
         // optional string     name   = 1;
         encode_key(1, LengthDelimited, &mut self.buf);
@@ -224,14 +251,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.start_family(&name)?;
 
         // optional MetricType type   = 3;
         // COUNTER = 0;
@@ -281,14 +301,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.start_family(&name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
@@ -338,14 +351,7 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
-        enc.flush_buf()?;
-
-        if enc.state == State::Init {
-            // optional string     name   = 1;
-            encode_key(1, LengthDelimited, &mut enc.buf);
-            encode_varint(name.encode_len() as u64, &mut enc.buf);
-            name.encode_utf8(&mut enc.buf)?;
-        }
+        enc.start_family(&name)?;
 
         // optional MetricType type   = 3;
         // GAUGE = 1;
-- 
2.43.0


From 843674fd35b0ba63cf3786e46e72618809fe0800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:38 +0000
Subject: [PATCH 12/24] fix: protobuf metrics written without a type line
 produced corrupt output

---
 prometheus-proto/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prometheus-proto/src/lib.rs b/prometheus-proto/src/lib.rs
index afe5530..1c6544e 100644
--- a/prometheus-proto/src/lib.rs
+++ b/prometheus-proto/src/lib.rs
@@ -266,9 +266,12 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for CounterState {
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
+        if matches!(enc.state, State::Init | State::Help) {
+            Self::write_type(name, enc)?;
+        }
         enc.state = State::Metrics;
 
         let mut metric_len = 0;
@@ -316,9 +319,12 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for GaugeState {
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
+        if matches!(enc.state, State::Init | State::Help) {
+            Self::write_type(name, enc)?;
+        }
         enc.state = State::Metrics;
 
         let mut metric_len = 0;
@@ -366,9 +372,12 @@ impl<W: Write> MetricEncoding<ProtoEncoder<W>> for FloatGaugeState {
         &self,
         _m: &(),
         labels: impl LabelGroup,
-        _name: impl MetricNameEncoder,
+        name: impl MetricNameEncoder,
         enc: &mut ProtoEncoder<W>,
     ) -> Result<(), std::io::Error> {
+        if matches!(enc.state, State::Init | State::Help) {
+            Self::write_type(name, enc)?;
+        }
         enc.state = State::Metrics;
 
         let mut metric_len = 0;
-- 
2.43.0


From 917fb6eacfee719ac65eae089cd7090ebedab9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 13/24] fix: rename was ignored on variants with an explicit
 discriminant

---
 derive/src/value/to_tokens.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 53a29fa..afc5079 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -21,14 +21,13 @@ impl ToTokens for FixedCardinalityLabel {
 
         let visits = variants.iter().map(|var| {
             let var_ident = &var.ident;
-            let write = if let Some(int) = &var.value {
-                quote_spanned!(int.span() => v.write_int(#int))
-            } else {
-                let name = var.attrs.rename.as_ref().map_or_else(
-                    || rename_all.apply(&var.ident.to_string()),
-                    syn::LitStr::value,
-                );
-                quote_spanned!(var.span => v.write_str(#name))
+            let write = match (&var.attrs.rename, &var.value) {
+                (Some(name), _) => quote_spanned!(var.span => v.write_str(#name)),
+                (None, Some(int)) => quote_spanned!(int.span() => v.write_int(#int)),
+                (None, None) => {
+                    let name = rename_all.apply(&var.ident.to_string());
+                    quote_spanned!(var.span => v.write_str(#name))
+                }
             };
             quote_spanned!(var.span => #ident :: #var_ident => #write,)
         });
-- 
2.43.0


From 17231eabb9bed31e9c0926e945509acce3dc75da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 14/24] fix: labels of variants with raw identifiers kept the r
 prefix

---
 derive/src/value/to_tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index afc5079..dc9a541 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
+use syn::ext::IdentExt;
 
 use super::FixedCardinalityLabel;
 
@@ -25,7 +26,7 @@ impl ToTokens for FixedCardinalityLabel {
                 (Some(name), _) => quote_spanned!(var.span => v.write_str(#name)),
                 (None, Some(int)) => quote_spanned!(int.span() => v.write_int(#int)),
                 (None, None) => {
-                    let name = rename_all.apply(&var.ident.to_string());
+                    let name = rename_all.apply(&var.ident.unraw().to_string());
                     quote_spanned!(var.span => v.write_str(#name))
                 }
             };
-- 
2.43.0


From 0cf027ac0285d8ea6fa003d5204d42c8c0c80026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 15/24] fix: derived label groups with too many combinations
 shared identifiers

---
 derive/src/label_group/to_tokens.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 827ef0d..410d3a7 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -278,12 +278,16 @@ impl ToTokens for SetEncode<'_> {
 
         tokens.extend(quote! {
             fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
-                let mut mul = 1;
-                let mut index = 0;
+                // `None` once the product of the cardinalities does not fit
+                let mut mul = Some(1usize);
+                let mut index = 0usize;
 
                 #(
-                    index += #fixed_encodes * mul;
-                    mul *= #cardinalities;
+                    let encoded: usize = #fixed_encodes;
+                    if encoded != 0 {
+                        index = index.checked_add(encoded.checked_mul(mul?)?)?;
+                    }
+                    mul = mul.and_then(|x| x.checked_mul(#cardinalities));
                 )*
 
                 Some((
-- 
2.43.0


From 0d9634ad442f05795689eccb5e18814f39b62d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:06 +0000
Subject: [PATCH 16/24] fix: the start time of the calling process was reported
 for every process

---
 process/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index c3707c8..f81fe58 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -58,7 +58,7 @@ impl ProcessCollector {
         let mut start_time = None;
         #[cfg(target_os = "linux")]
         if let Ok(boot_time) = procfs::boot_time_secs() {
-            if let Ok(stat) = procfs::process::Process::myself().and_then(|p| p.stat()) {
+            if let Ok(stat) = procfs::process::Process::new(pid).and_then(|p| p.stat()) {
                 start_time = Some(stat.starttime as i64 / clk_tck() + boot_time as i64);
             }
         }
-- 
2.43.0


From 244321503af29c13d9969f6def26b6ecfc585bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:16 +0000
Subject: [PATCH 17/24] fix: count no descriptors for a process without any

procfs lists /proc/PID/fd when its size is 0, and counts the . and .. entries,
so that open_fds was 2 for a process with no open file descriptor.
---
 process/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/process/src/lib.rs b/process/src/lib.rs
index f81fe58..648b8ea 100644
--- a/process/src/lib.rs
+++ b/process/src/lib.rs
@@ -86,7 +86,7 @@ where
             };
 
             // file descriptors
-            if let Ok(fd_count) = p.fd_count() {
+            if let Ok(fd_count) = fd_count(p.pid) {
                 let fd = MetricName::from_str("open_fds");
                 enc.write_help(fd, "Number of open file descriptors.")?;
                 write_gauge(enc, fd, NoLabels, fd_count as i64)?;
@@ -139,6 +139,20 @@ where
     }
 }
 
+/// Number of open file descriptors.
+///
+/// `procfs::process::Process::fd_count` counts the `.` and `..` entries as well when it has to
+/// list the directory.
+#[cfg(target_os = "linux")]
+fn fd_count(pid: pid_t) -> std::io::Result<u64> {
+    let fds = format!("/proc/{pid}/fd");
+    match std::fs::metadata(&fds)?.len() {
+        // either there are none, or the kernel (before v6.2) does not tell
+        0 => Ok(std::fs::read_dir(&fds)?.count() as u64),
+        n => Ok(n),
+    }
+}
+
 fn clk_tck() -> i64 {
     static CLK_TCK: OnceLock<i64> = OnceLock::new();
     *CLK_TCK.get_or_init(|| unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as i64)
-- 
2.43.0


From b771f81cea8578d038bfd8a9e88dba12a0afbc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:58 +0000
Subject: [PATCH 18/24] fix: adding a current runtime where there is none broke
 the collector

The documented panic happened while the list was locked, which poisoned it:
every later scrape and addition panicked as well.
---
 tokio/src/lib.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tokio/src/lib.rs b/tokio/src/lib.rs
index b4ddd29..1138601 100644
--- a/tokio/src/lib.rs
+++ b/tokio/src/lib.rs
@@ -56,10 +56,8 @@ impl NamedRuntimesCollector {
 
     /// Inserts a `RuntimeCollector` with the given runtime.
     pub fn add(&self, rt: RuntimeMetrics, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::new(rt).with_name(name))
+        let rt = RuntimeCollector::new(rt).with_name(name);
+        self.runtimes.write().unwrap().push(rt)
     }
 
     /// Inserts a `RuntimeCollector` for the current runtime.
@@ -71,10 +69,9 @@ impl NamedRuntimesCollector {
     /// `EnterGuard`. Calling this from within a thread created by `std::thread::spawn` (for example)
     /// will cause a panic unless that thread has an active `EnterGuard`.
     pub fn add_current(&self, name: impl Into<Cow<'static, str>>) {
-        self.runtimes
-            .write()
-            .unwrap()
-            .push(RuntimeCollector::current().with_name(name))
+        // may panic, which must not poison the lock
+        let rt = RuntimeCollector::current().with_name(name);
+        self.runtimes.write().unwrap().push(rt)
     }
 }
 
-- 
2.43.0


From 0f940318eb8dcc7bd53165a3a30e0bb755071aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:44 +0000
Subject: [PATCH 19/24] fix: a label field named like a variable of the derived
 code could not be derived

---
 derive/src/label_group/to_tokens.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 410d3a7..76f5ff5 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -315,16 +315,23 @@ impl ToTokens for SetDecode<'_> {
             cardinalities,
         } = *self;
 
+        // the values are bound to names of their own, as a field can be named like any variable
+        let values: Vec<_> = (0..fixed.len() + dynamics.len())
+            .map(|i| format_ident!("__value{i}"))
+            .collect();
+        let (fixed_values, dynamic_values) = values.split_at(fixed.len());
+
         let fixed_decodes: Vec<TokenStream> = fixed
             .iter()
-            .map(|x| {
+            .zip(fixed_values)
+            .map(|(x, value)| {
                 let LabelGroupField {
                     name, attrs, ty, ..
                 } = x;
 
                 match &attrs.kind {
-                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #name = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, index1);),
-                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, index1);),
+                    LabelGroupFieldAttrsKind::Fixed => quote_spanned!(x.span => let #value = <#krate::label::StaticLabelSet<#ty> as #krate::label::LabelSet>::decode(&self.#name, index1);),
+                    LabelGroupFieldAttrsKind::FixedWith(ty) => quote_spanned!(x.span => let #value = <#ty as #krate::label::LabelSet>::decode(&self.#name, index1);),
                     LabelGroupFieldAttrsKind::DynamicWith(_) =>unreachable!(),
                 }
             })
@@ -345,8 +352,9 @@ impl ToTokens for SetDecode<'_> {
                 } = x;
 
                 let index = &dynamic_indices[i];
+                let value = &dynamic_values[i];
                 match &attrs.kind {
-                    LabelGroupFieldAttrsKind::DynamicWith(ty) => quote_spanned!(x.span => let #name = <#ty as #krate::label::LabelSet>::decode(&self.#name, #index);),
+                    LabelGroupFieldAttrsKind::DynamicWith(ty) => quote_spanned!(x.span => let #value = <#ty as #krate::label::LabelSet>::decode(&self.#name, #index);),
                     _ => unreachable!(),
                 }
             })
@@ -371,7 +379,7 @@ impl ToTokens for SetDecode<'_> {
                 )*
 
                 Self::Group {
-                    #(#field_names,)*
+                    #(#field_names: #values,)*
                 }
             }
         });
-- 
2.43.0


From c5ea33990463de48d4203cb5f8427321828e10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:46 +0000
Subject: [PATCH 20/24] fix: fields whose names differ only in case or
 punctuation could not be derived

---
 derive/src/label_group/mod.rs        | 10 ++++++++++
 derive/src/label_group/parse.rs      |  9 +++++++++
 derive/src/label_group/to_tokens.rs  | 14 ++++++--------
 derive/src/metric_group/mod.rs       | 15 ++++++++++++++-
 derive/src/metric_group/parse.rs     |  7 +++++++
 derive/src/metric_group/to_tokens.rs | 16 +++++++---------
 6 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/derive/src/label_group/mod.rs b/derive/src/label_group/mod.rs
index 72b3cd8..dff3d01 100644
--- a/derive/src/label_group/mod.rs
+++ b/derive/src/label_group/mod.rs
@@ -24,3 +24,13 @@ struct LabelGroupField {
     attrs: LabelGroupFieldAttrs,
     ty: Type,
 }
+
+impl LabelGroupField {
+    /// The name the label is exported under
+    fn label_name(&self) -> String {
+        match &self.attrs.rename {
+            Some(rename) => rename.value(),
+            None => self.name.to_string(),
+        }
+    }
+}
diff --git a/derive/src/label_group/parse.rs b/derive/src/label_group/parse.rs
index dfe9622..3289b27 100644
--- a/derive/src/label_group/parse.rs
+++ b/derive/src/label_group/parse.rs
@@ -54,6 +54,15 @@ impl TryFrom<DeriveInput> for LabelGroup {
             },
         };
 
+        for (i, field) in fields.iter().enumerate() {
+            if fields[..i]
+                .iter()
+                .any(|x| x.label_name() == field.label_name())
+            {
+                return Err(syn::Error::new(field.span, "duplicate label name"));
+            }
+        }
+
         Ok(Self {
             vis,
             krate,
diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 76f5ff5..07b32b3 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 
@@ -18,13 +17,12 @@ impl ToTokens for LabelGroup {
         let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
         let visits = fields.iter().map(|x| {
-            let LabelGroupField { name, attrs, .. } = x;
-            let name_string = attrs.rename.as_ref().map_or_else(|| name.to_string(), |r| r.value());
-            let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
-            quote_spanned! { x.span =>
-                const #ident: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
-                #krate::label::LabelGroupVisitor::write_value(v, #ident, &self.#name);
-            }
+            let LabelGroupField { name, .. } = x;
+            let name_string = x.label_name();
+            quote_spanned! { x.span => {
+                const __NAME: &#krate::label::LabelName = #krate::label::LabelName::from_str(#name_string);
+                #krate::label::LabelGroupVisitor::write_value(v, __NAME, &self.#name);
+            }}
         });
 
         let label_group_set = Set(self);
diff --git a/derive/src/metric_group/mod.rs b/derive/src/metric_group/mod.rs
index d6b963f..4381c38 100644
--- a/derive/src/metric_group/mod.rs
+++ b/derive/src/metric_group/mod.rs
@@ -5,7 +5,7 @@ mod attr;
 mod parse;
 mod to_tokens;
 
-use attr::MetricGroupFieldAttrs;
+use attr::{MetricGroupFieldAttrs, MetricGroupFieldAttrsKind};
 
 pub struct MetricGroup {
     krate: Path,
@@ -22,3 +22,16 @@ struct MetricGroupField {
     attrs: MetricGroupFieldAttrs,
     ty: Type,
 }
+
+impl MetricGroupField {
+    /// The name the metric is exported under, if this is not a group
+    fn metric_name(&self) -> Option<String> {
+        match &self.attrs.kind {
+            MetricGroupFieldAttrsKind::Metric {
+                rename: Some(rename),
+            } => Some(rename.value()),
+            MetricGroupFieldAttrsKind::Metric { rename: None } => Some(self.name.to_string()),
+            MetricGroupFieldAttrsKind::Group { .. } => None,
+        }
+    }
+}
diff --git a/derive/src/metric_group/parse.rs b/derive/src/metric_group/parse.rs
index 8464ae0..b76ea73 100644
--- a/derive/src/metric_group/parse.rs
+++ b/derive/src/metric_group/parse.rs
@@ -49,6 +49,13 @@ impl TryFrom<DeriveInput> for MetricGroup {
             },
         };
 
+        for (i, field) in fields.iter().enumerate() {
+            let name = field.metric_name();
+            if name.is_some() && fields[..i].iter().any(|x| x.metric_name() == name) {
+                return Err(syn::Error::new(field.span, "duplicate metric name"));
+            }
+        }
+
         Ok(Self {
             krate,
             ident,
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index e2a4f0c..3c42170 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -1,4 +1,3 @@
-use heck::ToShoutySnakeCase;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
 use syn::{parse_quote, parse_quote_spanned};
@@ -51,22 +50,21 @@ impl ToTokens for MetricGroup {
         let visits = fields.iter().map(|x| {
             let MetricGroupField { name,ty, attrs, .. } = x;
             match &attrs.kind {
-                MetricGroupFieldAttrsKind::Metric { rename } => {
-                    let name_string = rename.as_ref().map_or_else(|| name.to_string(), |l| l.value());
-                    let ident = format_ident!("{}", name_string.to_shouty_snake_case(), span = x.span);
+                MetricGroupFieldAttrsKind::Metric { .. } => {
+                    let name_string = x.metric_name();
 
                     let help = attrs.docs.as_deref().map(|doc|{
                         let doc = doc.trim();
                         quote_spanned!(x.span => {
-                            <#enc as #krate::metric::group::Encoding>::write_help(enc, #ident, #doc)?;
+                            <#enc as #krate::metric::group::Encoding>::write_help(enc, __NAME, #doc)?;
                         })
                     });
 
-                    quote_spanned! { x.span =>
-                        const #ident: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
+                    quote_spanned! { x.span => {
+                        const __NAME: &#krate::metric::name::MetricName = #krate::metric::name::MetricName::from_str(#name_string);
                         #help
-                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, #ident, enc)?;
-                    }
+                        <#ty as #krate::metric::MetricFamilyEncoding<#enc>>::collect_family_into(&self.#name, __NAME, enc)?;
+                    }}
                 },
                 MetricGroupFieldAttrsKind::Group { namespace: None } => {
                     quote_spanned! { x.span =>
-- 
2.43.0


From 39ae76e05dad5e26dea3ed099a212bf77140d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:49 +0000
Subject: [PATCH 21/24] fix: labels and metrics with a raw identifier could not
 be derived

---
 derive/src/label_group/mod.rs  | 3 ++-
 derive/src/metric_group/mod.rs | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/derive/src/label_group/mod.rs b/derive/src/label_group/mod.rs
index dff3d01..da49413 100644
--- a/derive/src/label_group/mod.rs
+++ b/derive/src/label_group/mod.rs
@@ -1,4 +1,5 @@
 use proc_macro2::{Ident, Span};
+use syn::ext::IdentExt;
 use syn::{Generics, Path, Type, Visibility};
 
 use self::attr::LabelGroupFieldAttrs;
@@ -30,7 +31,7 @@ impl LabelGroupField {
     fn label_name(&self) -> String {
         match &self.attrs.rename {
             Some(rename) => rename.value(),
-            None => self.name.to_string(),
+            None => self.name.unraw().to_string(),
         }
     }
 }
diff --git a/derive/src/metric_group/mod.rs b/derive/src/metric_group/mod.rs
index 4381c38..080582e 100644
--- a/derive/src/metric_group/mod.rs
+++ b/derive/src/metric_group/mod.rs
@@ -1,4 +1,5 @@
 use proc_macro2::{Ident, Span};
+use syn::ext::IdentExt;
 use syn::{punctuated::Punctuated, FnArg, Generics, Path, Token, Type};
 
 mod attr;
@@ -30,7 +31,9 @@ impl MetricGroupField {
             MetricGroupFieldAttrsKind::Metric {
                 rename: Some(rename),
             } => Some(rename.value()),
-            MetricGroupFieldAttrsKind::Metric { rename: None } => Some(self.name.to_string()),
+            MetricGroupFieldAttrsKind::Metric { rename: None } => {
+                Some(self.name.unraw().to_string())
+            }
             MetricGroupFieldAttrsKind::Group { .. } => None,
         }
     }
-- 
2.43.0


From 71c3305ee81bf9a6b701bb246897380c2a84520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:50 +0000
Subject: [PATCH 22/24] fix: derives could not be used by a macro_rules macro

---
 derive/src/label_group/parse.rs  |  4 ++--
 derive/src/lib.rs                | 19 +++++++++++++++++--
 derive/src/metric_group/attr.rs  |  4 ++--
 derive/src/metric_group/parse.rs |  4 ++--
 derive/src/value/parse.rs        | 10 +++++-----
 derive/src/value/to_tokens.rs    |  2 +-
 6 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/derive/src/label_group/parse.rs b/derive/src/label_group/parse.rs
index 3289b27..78df88c 100644
--- a/derive/src/label_group/parse.rs
+++ b/derive/src/label_group/parse.rs
@@ -1,6 +1,6 @@
 use syn::{spanned::Spanned, Data, DeriveInput, Field, Fields};
 
-use crate::Krate;
+use crate::{derive_span, Krate};
 
 use super::attr::{ContainerAttrs, LabelGroupFieldAttrs};
 use super::{LabelGroup, LabelGroupField};
@@ -10,7 +10,7 @@ impl TryFrom<Field> for LabelGroupField {
     fn try_from(input: Field) -> syn::Result<Self> {
         let attrs = LabelGroupFieldAttrs::parse_attrs(&input.attrs)?;
         Ok(LabelGroupField {
-            span: input.span(),
+            span: derive_span(&input),
             vis: input.vis,
             name: input.ident.unwrap(),
             ty: input.ty,
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 629a365..380f6a8 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -1,5 +1,6 @@
+use proc_macro2::Span;
 use quote::ToTokens;
-use syn::{parse_macro_input, DeriveInput};
+use syn::{parse_macro_input, spanned::Spanned, DeriveInput};
 
 mod label_group;
 mod metric_group;
@@ -32,6 +33,20 @@ pub fn derive_metric_group(input: proc_macro::TokenStream) -> proc_macro::TokenS
     .into()
 }
 
+/// Where the item is, for errors, with the names the derive can use.
+/// The item's own span can be that of a `macro_rules!` fragment, where no name of the derived code resolves.
+fn derive_span(item: &impl Spanned) -> Span {
+    Span::call_site().located_at(item.span())
+}
+
+/// An `$x:expr` of a `macro_rules!` macro is an invisible group
+fn ungroup(expr: &syn::Expr) -> &syn::Expr {
+    match expr {
+        syn::Expr::Group(group) => ungroup(&group.expr),
+        expr => expr,
+    }
+}
+
 const CRATE: &str = "measured";
 struct Krate(pub syn::Path);
 
@@ -41,7 +56,7 @@ impl Default for Krate {
             leading_colon: Some(Default::default()),
             segments: [syn::PathSegment::from(syn::Ident::new(
                 CRATE,
-                proc_macro2::Span::call_site(),
+                Span::call_site(),
             ))]
             .into_iter()
             .collect(),
diff --git a/derive/src/metric_group/attr.rs b/derive/src/metric_group/attr.rs
index b8e7d0d..c10925a 100644
--- a/derive/src/metric_group/attr.rs
+++ b/derive/src/metric_group/attr.rs
@@ -3,7 +3,7 @@ use syn::{
     LitStr, Token,
 };
 
-use crate::Krate;
+use crate::{ungroup, Krate};
 
 const LABEL_ATTR: &str = "metric";
 
@@ -161,7 +161,7 @@ impl MetricGroupFieldAttrs {
                     Ok(())
                 })?;
             } else if attr.path().is_ident("doc") {
-                let expr = &attr.meta.require_name_value()?.value;
+                let expr = ungroup(&attr.meta.require_name_value()?.value);
                 let s = match expr {
                     Expr::Lit(ExprLit {
                         lit: Lit::Str(s), ..
diff --git a/derive/src/metric_group/parse.rs b/derive/src/metric_group/parse.rs
index b76ea73..f1fd833 100644
--- a/derive/src/metric_group/parse.rs
+++ b/derive/src/metric_group/parse.rs
@@ -1,6 +1,6 @@
 use syn::{spanned::Spanned, Data, DeriveInput, Field, Fields};
 
-use crate::Krate;
+use crate::{derive_span, Krate};
 
 use super::attr::{ContainerAttrs, MetricGroupFieldAttrs};
 use super::{MetricGroup, MetricGroupField};
@@ -10,7 +10,7 @@ impl TryFrom<Field> for MetricGroupField {
     fn try_from(input: Field) -> syn::Result<Self> {
         let attrs = MetricGroupFieldAttrs::parse_attrs(&input.attrs)?;
         Ok(MetricGroupField {
-            span: input.span(),
+            span: derive_span(&input),
             name: input.ident.unwrap(),
             ty: input.ty,
             attrs,
diff --git a/derive/src/value/parse.rs b/derive/src/value/parse.rs
index a51306d..fea29a4 100644
--- a/derive/src/value/parse.rs
+++ b/derive/src/value/parse.rs
@@ -1,6 +1,6 @@
 use syn::{spanned::Spanned, Data, DeriveInput, Fields, Lit, Variant};
 
-use crate::Krate;
+use crate::{derive_span, ungroup, Krate};
 
 use super::{
     attr::{ContainerAttrs, VariantAttrs},
@@ -10,7 +10,7 @@ use super::{
 impl TryFrom<Variant> for FixedCardinalityLabelVariant {
     type Error = syn::Error;
     fn try_from(input: Variant) -> syn::Result<Self> {
-        let span = input.span();
+        let span = derive_span(&input);
         let attrs = VariantAttrs::parse_attrs(&input.attrs)?;
 
         match input.fields {
@@ -26,9 +26,9 @@ impl TryFrom<Variant> for FixedCardinalityLabelVariant {
             ident: input.ident,
             value: input
                 .discriminant
-                .map(|(_, expr)| match expr {
-                    syn::Expr::Lit(expr_lit) => match expr_lit.lit {
-                        Lit::Int(int) => Ok(int),
+                .map(|(_, expr)| match ungroup(&expr) {
+                    syn::Expr::Lit(expr_lit) => match &expr_lit.lit {
+                        Lit::Int(int) => Ok(int.clone()),
                         _ => Err(syn::Error::new(expr_lit.span(), "unsupported discriminant")),
                     },
                     _ => Err(syn::Error::new(expr.span(), "unsupported discriminant")),
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index dc9a541..2ac2919 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -24,7 +24,7 @@ impl ToTokens for FixedCardinalityLabel {
             let var_ident = &var.ident;
             let write = match (&var.attrs.rename, &var.value) {
                 (Some(name), _) => quote_spanned!(var.span => v.write_str(#name)),
-                (None, Some(int)) => quote_spanned!(int.span() => v.write_int(#int)),
+                (None, Some(int)) => quote_spanned!(var.span => v.write_int(#int)),
                 (None, None) => {
                     let name = rename_all.apply(&var.ident.unraw().to_string());
                     quote_spanned!(var.span => v.write_str(#name))
-- 
2.43.0


From 892ef302ab6f9455684b2fb0a8f76932892adf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:11 +0000
Subject: [PATCH 23/24] fix: derived code used names of the surrounding code
 instead of those of core

---
 derive/src/label_group/to_tokens.rs  | 28 ++++++++++++++--------------
 derive/src/metric_group/to_tokens.rs |  4 ++--
 derive/src/value/to_tokens.rs        |  4 ++--
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 07b32b3..1f05fdf 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -157,31 +157,31 @@ impl ToTokens for Set<'_> {
 
         let cardinality_fns = if dynamics.is_empty() {
             quote!(
-                fn cardinality(&self) -> Option<usize> {
-                    Some(1usize)
+                fn cardinality(&self) -> ::core::option::Option<usize> {
+                    ::core::option::Option::Some(1usize)
                         #( .and_then(|x| x.checked_mul(#cardinalities)) )*
                 }
                 type Unique = usize;
-                fn encode_dense(&self, value: Self::Unique) -> Option<usize> {
-                    Some(value)
+                fn encode_dense(&self, value: Self::Unique) -> ::core::option::Option<usize> {
+                    ::core::option::Option::Some(value)
                 }
                 fn decode_dense(&self, value: usize) -> Self::Group<'_> {
-                    self.decode(&value)
+                    <Self as #krate::label::LabelGroupSet>::decode(self, &value)
                 }
             )
         } else {
             let dynamics = dynamics.iter().map(|_| quote!(usize));
             quote!(
-                fn cardinality(&self) -> Option<usize> {
-                    None
+                fn cardinality(&self) -> ::core::option::Option<usize> {
+                    ::core::option::Option::None
                 }
                 type Unique = (usize, #(#dynamics),*);
 
-                fn encode_dense(&self, _value: Self::Unique) -> Option<usize> {
-                    None
+                fn encode_dense(&self, _value: Self::Unique) -> ::core::option::Option<usize> {
+                    ::core::option::Option::None
                 }
                 fn decode_dense(&self, _value: usize) -> Self::Group<'_> {
-                    unreachable!("does not have a dense encoding")
+                    ::core::unreachable!("does not have a dense encoding")
                 }
             )
         };
@@ -275,9 +275,9 @@ impl ToTokens for SetEncode<'_> {
             .collect();
 
         tokens.extend(quote! {
-            fn encode(&self, value: Self::Group<'_>) -> Option<Self::Unique> {
+            fn encode(&self, value: Self::Group<'_>) -> ::core::option::Option<Self::Unique> {
                 // `None` once the product of the cardinalities does not fit
-                let mut mul = Some(1usize);
+                let mut mul = ::core::option::Option::Some(1usize);
                 let mut index = 0usize;
 
                 #(
@@ -288,7 +288,7 @@ impl ToTokens for SetEncode<'_> {
                     mul = mul.and_then(|x| x.checked_mul(#cardinalities));
                 )*
 
-                Some((
+                ::core::option::Option::Some((
                     index
                     #(, #dynamic_encodes)*
                 ))
@@ -370,7 +370,7 @@ impl ToTokens for SetDecode<'_> {
                     #fixed_decodes;
                 )*
 
-                debug_assert_eq!(index, 0);
+                ::core::debug_assert_eq!(index, 0);
 
                 #(
                     #dynamic_decodes;
diff --git a/derive/src/metric_group/to_tokens.rs b/derive/src/metric_group/to_tokens.rs
index 3c42170..c5ea672 100644
--- a/derive/src/metric_group/to_tokens.rs
+++ b/derive/src/metric_group/to_tokens.rs
@@ -85,9 +85,9 @@ impl ToTokens for MetricGroup {
         tokens.extend(quote! {
             #[automatically_derived]
             impl #group_impl_generics #krate::metric::group::MetricGroup<#enc> for #ident #ty_generics #group_where_clause {
-                fn collect_group_into(&self, enc: &mut #enc) -> Result<(), #enc::Err>{
+                fn collect_group_into(&self, enc: &mut #enc) -> ::core::result::Result<(), #enc::Err> {
                     #(#visits)*
-                    Ok(())
+                    ::core::result::Result::Ok(())
                 }
             }
         });
diff --git a/derive/src/value/to_tokens.rs b/derive/src/value/to_tokens.rs
index 2ac2919..a965b9c 100644
--- a/derive/src/value/to_tokens.rs
+++ b/derive/src/value/to_tokens.rs
@@ -60,14 +60,14 @@ impl ToTokens for FixedCardinalityLabel {
                 fn decode(value: usize) -> Self {
                     match value {
                         #(#count2 => #ident :: #var_idents2,)*
-                        _ => panic!("invalid value"),
+                        _ => ::core::panic!("invalid value"),
                     }
                 }
             }
 
             #[automatically_derived]
             impl #krate::label::LabelValue for #ident {
-                fn visit<V: #krate::label::LabelVisitor>(&self, v: V) -> V::Output {
+                fn visit<__LabelVisitorT: #krate::label::LabelVisitor>(&self, v: __LabelVisitorT) -> __LabelVisitorT::Output {
                     match self {
                         #(#visits)*
                     }
-- 
2.43.0


From 8b22fe1880af5d8e7625017286c5181037a25d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:04 +0000
Subject: [PATCH 24/24] fix: the set of a label group with a lifetime other
 than 'a could not be derived

---
 derive/src/label_group/to_tokens.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/label_group/to_tokens.rs b/derive/src/label_group/to_tokens.rs
index 1f05fdf..32f4899 100644
--- a/derive/src/label_group/to_tokens.rs
+++ b/derive/src/label_group/to_tokens.rs
@@ -1,5 +1,6 @@
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned, ToTokens};
+use syn::parse_quote;
 
 use super::attr::{LabelGroupFieldAttrsKind, LabelGroupFieldAttrsSortKey};
 use super::{LabelGroup, LabelGroupField};
@@ -57,6 +58,10 @@ impl ToTokens for Set<'_> {
         sorted_fields.sort_by_key(|x| x.attrs.get_sort_key());
 
         let (_, ty_generics, _) = generics.split_for_impl();
+        let lifetime = match generics.lifetimes().next() {
+            Some(param) => param.lifetime.clone(),
+            None => parse_quote!('a),
+        };
 
         let set_fields = sorted_fields.iter().map(|x| {
             let LabelGroupField {
@@ -210,7 +215,7 @@ impl ToTokens for Set<'_> {
             #[automatically_derived]
             impl #krate::label::LabelGroupSet for #set_ident {
                 // TODO: fix these generics
-                type Group<'a> = #ident #ty_generics;
+                type Group<#lifetime> = #ident #ty_generics;
 
                 #cardinality_fns
 
-- 
2.43.0

