From 9ef11eb2940103a11478956acb7d322c6730c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:20 +0000
Subject: [PATCH 01/13] fix: report the right length for sub-sequences of
 composite sequences

subSequence() shifts start and end while it walks the parts, so the length
passed to the result was wrong whenever parts were skipped or crossed.
Compute the length before the walk.
---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..9febfb2 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int subLength = end - start;
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), subLength);
   }
 
   /**
-- 
2.43.0


From ba612f3ef082b0c4c2332864bc47d1ef7ecb7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:26 +0000
Subject: [PATCH 02/13] fix: do not reserve room for the # prefix when the
 value is zero

Zero gets no 0/0x prefix, but its digits were still shortened by the
length of the prefix: %#05x of 0 gave "  000" and %#.3o of 0 gave "00".
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f4c995a..3226dc6 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -118,14 +118,14 @@ public final class SeqFormatter {
     int precision = 1;
     if (context.isPrecisionSet()) {
       precision = context.getPrecision();
-      if (context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix)) {
+      if (signum != 0 && context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix)) {
         --precision;
       }
     } else if (context.hasFlag(Flag.ZERO_PAD)
         && context.isWidthSet()
         && !context.hasFlag(Flag.LEFT_JUSTIFY)) {
       precision = context.getWidth();
-      if (context.hasFlag(Flag.ALTERNATE)) {
+      if (signum != 0 && context.hasFlag(Flag.ALTERNATE)) {
         precision -= prefix.length();
       }
     }
-- 
2.43.0


From 4a61feeafab7df9bc258ba44ed8397191dc30f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:33 +0000
Subject: [PATCH 03/13] fix: honour the space flag for a zero with precision
 zero

"% .0d" of 0 printed nothing, while "%+.0d" printed the sign.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 3226dc6..f107e7f 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -73,8 +73,7 @@ public final class SeqFormatter {
   static Seq d(FormatContext context, IntForm value) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      Seq v0 = context.hasFlag(Flag.PLUS) ? Seq.ch('+') : Seq.empty();
-      return spaceJustify(context, v0);
+      return spaceJustify(context, sign(context, Seq.empty(), false));
     }
     Seq v0 = Seq.wrap(value.toDecimalString());
     int precision = 1;
-- 
2.43.0


From b5837bba7e62f83cb305669392d00f0517d45ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:40 +0000
Subject: [PATCH 04/13] fix: honour the space flag for positive infinity

"% f" of Infinity lacked the leading space that every other positive
number gets.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f107e7f..5df6a72 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -143,14 +143,7 @@ public final class SeqFormatter {
     if (value.isNaN()) {
       v0 = Seq.wrap("NaN");
     } else {
-      boolean neg = value.signum() < 0;
-      if (neg) {
-        v0 = Seq.wrap("-Infinity");
-      } else if (context.hasFlag(Flag.PLUS)) {
-        v0 = Seq.wrap("+Infinity");
-      } else {
-        v0 = Seq.wrap("Infinity");
-      }
+      v0 = sign(context, Seq.wrap("Infinity"), value.signum() < 0);
     }
     return spaceJustify(context, v0);
   }
-- 
2.43.0


From 838ad7bb37e8f772a8cd597bafc17298c80c1a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:35 +0000
Subject: [PATCH 05/13] fix: reject Integer.MIN_VALUE as a width taken from an
 argument

Negating it yields the value that marks a width as taken from an
argument, so the width was silently ignored instead of being refused as
too large.
---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..bddfb57 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -103,7 +103,9 @@ public final class DefaultAppender implements Appender {
       if (w >= 0) {
         context = context.setWidth(w);
       } else {
-        context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-w);
+        // -Integer.MIN_VALUE overflows; any width that large has to be rejected.
+        int width = w == Integer.MIN_VALUE ? Integer.MAX_VALUE : -w;
+        context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(width);
       }
     }
     if (context.isPrecedingPrecision()) {
-- 
2.43.0


From fc8ae29435a113710622ac343d23eb51a5db6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:44 +0000
Subject: [PATCH 06/13] fix: compile long format strings without running out of
 stack

The parser called itself once per directive, so a format string with some
ten thousand directives ended in a StackOverflowError. Loop instead.
---
 src/main/java/io/fastprintf/Compiler.java | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..2bfbfed 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -59,7 +59,6 @@ final class Compiler {
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
     appenders.add(new DefaultAppender(specifier, context));
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
-- 
2.43.0


From 535054a9868a9d62bbb583927dbe480dc25f8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:08 +0000
Subject: [PATCH 07/13] fix: print a two-digit exponent for ten-digit big
 decimals

"%.9e" of new BigDecimal("1234567890") printed e+9 instead of e+09.
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cea869e..16c27f5 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -38,7 +38,7 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
-        Seq exp = length < 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
+        Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
         return new FloatLayout(mant, exp);
       } else {
         return new FloatLayout(Seq.wrap(unscaledString), Seq.wrap("+00"));
-- 
2.43.0


From f96e5831c3109f0dfd040e61b1f37dc621edd4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:15 +0000
Subject: [PATCH 08/13] fix: print big decimal zeros as zero whatever their
 scale

The scale of a zero leaked into the output: %e of 0.000 printed
0.000000e-03, %g of it 0e-03, and %f of 0E+3 printed 0000.000000.
---
 .../java/io/fastprintf/number/BigDecimalWrapper.java     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 16c27f5..7fdd9ad 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -13,15 +13,20 @@ public final class BigDecimalWrapper implements FloatForm {
   private final int signum;
 
   public BigDecimalWrapper(BigDecimal value) {
-    this.value = value.abs();
+    this.value = withoutZeroScale(value.abs());
     this.signum = value.signum();
   }
 
   public BigDecimalWrapper(BigInteger unscaledValue, int scale) {
-    this.value = new BigDecimal(unscaledValue.abs(), scale);
+    this.value = withoutZeroScale(new BigDecimal(unscaledValue.abs(), scale));
     this.signum = unscaledValue.signum();
   }
 
+  // The scale of a zero must not show up as leading zeros or as an exponent.
+  private static BigDecimal withoutZeroScale(BigDecimal value) {
+    return value.signum() == 0 ? BigDecimal.ZERO : value;
+  }
+
   private static Seq insertDotAfterFirstChar(String unscaledString) {
     int length = unscaledString.length();
     Seq mant = Seq.ch(unscaledString.charAt(0));
-- 
2.43.0


From 6c71d9ce048612c5413699f0f075e7ff6fedc236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:23 +0000
Subject: [PATCH 09/13] fix: keep nested calls out of the cached string builder

With the thread-local cache enabled, an argument whose toString() used
the same formatter cleared and overwrote the builder of the outer call.
Take the builder out of the cache while it is in use.
---
 src/main/java/io/fastprintf/FastPrintfImpl.java | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..079de43 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -33,6 +33,9 @@ final class FastPrintfImpl implements FastPrintf {
       this.stringBuilderFactory =
           requiredCapacity -> {
             StringBuilder builder = threadLocalBuilder.get();
+            // Detach the builder while it is in use, so that a nested call on this thread (say,
+            // from an argument's toString()) gets another one. format(Args) puts it back.
+            threadLocalBuilder.remove();
             int currentCapacity = builder.capacity();
 
             // This is the core logic:
@@ -48,7 +51,6 @@ final class FastPrintfImpl implements FastPrintf {
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
               builder = new StringBuilder(requiredCapacity);
-              threadLocalBuilder.set(builder);
 
             } else {
               // In all other cases, we reuse the existing builder:
@@ -87,7 +89,11 @@ final class FastPrintfImpl implements FastPrintf {
     for (Appender appender : appenders) {
       appender.append(consumer, iterator);
     }
-    return builder.toString();
+    String result = builder.toString();
+    if (threadLocalBuilder != null) {
+      threadLocalBuilder.set(builder);
+    }
+    return result;
   }
 
   @Override
-- 
2.43.0


From 7950526e18842a3b88fd45d696e780b6d1bc9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:30 +0000
Subject: [PATCH 10/13] fix: reject big integers outside the range of long as
 epoch values

---
 src/main/java/io/fastprintf/traits/BigIntegerTraits.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
index fd98487..be7d5a5 100644
--- a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
@@ -1,5 +1,6 @@
 package io.fastprintf.traits;
 
+import io.fastprintf.PrintfException;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
@@ -37,6 +38,9 @@ public final class BigIntegerTraits implements FormatTraits {
 
   @Override
   public TemporalAccessor asTemporalAccessor() {
+    if (value.bitLength() > 63) {
+      throw new PrintfException("%s is out of range for an epoch value", value);
+    }
     return Utils.longToInstant(value.longValue());
   }
 
-- 
2.43.0


From 317b8512f50707ed664672f2dba71ebd59947075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:30 +0000
Subject: [PATCH 11/13] fix: report an instant without epoch milliseconds as a
 formatting error

---
 src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
index f2d4686..4dc1244 100644
--- a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
+++ b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
@@ -48,7 +48,7 @@ public final class TemporalAccessorTraits implements FormatTraits {
     try {
       // The most robust way to get epoch milliseconds is also via Instant.
       return Instant.from(value).toEpochMilli();
-    } catch (DateTimeException e) {
+    } catch (DateTimeException | ArithmeticException e) {
       throw new PrintfException("Can't get epoch milliseconds from: %s", value, e);
     }
   }
-- 
2.43.0


From 793025802a1cb83ea4da72980e4e4a738d9e8f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:30 +0000
Subject: [PATCH 12/13] fix: report dates without an instant as a formatting
 error

---
 src/main/java/io/fastprintf/traits/ObjectTraits.java | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/ObjectTraits.java b/src/main/java/io/fastprintf/traits/ObjectTraits.java
index 7412df5..9fd0d36 100644
--- a/src/main/java/io/fastprintf/traits/ObjectTraits.java
+++ b/src/main/java/io/fastprintf/traits/ObjectTraits.java
@@ -93,7 +93,12 @@ public final class ObjectTraits implements FormatTraits {
   @Override
   public TemporalAccessor asTemporalAccessor() {
     if (value instanceof Date) {
-      return ((Date) value).toInstant();
+      try {
+        return ((Date) value).toInstant();
+      } catch (UnsupportedOperationException e) {
+        // java.sql.Date and java.sql.Time carry only a part of an instant
+        throw new PrintfException("%s cannot be converted to TemporalAccessor", value);
+      }
     }
     if (value instanceof Calendar) {
       return ((Calendar) value).toInstant();
-- 
2.43.0


From d4fa08ac6a836638bc914b9f8599c36699981b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:08:30 +0000
Subject: [PATCH 13/13] fix: report date-time formatting failures as formatting
 errors

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 5df6a72..1867d3d 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -9,6 +9,7 @@ import io.fastprintf.number.IntForm;
 import io.fastprintf.seq.Seq;
 import io.fastprintf.traits.FormatTraits;
 import io.fastprintf.traits.RefSlot;
+import java.time.DateTimeException;
 import java.time.Instant;
 import java.time.LocalDate;
 import java.time.LocalDateTime;
@@ -378,6 +379,14 @@ public final class SeqFormatter {
   }
 
   static Seq t(FormatContext context, FormatTraits traits) {
+    try {
+      return dateTime(context, traits);
+    } catch (DateTimeException e) {
+      throw new PrintfException("Cannot format date-time: " + e.getMessage(), e);
+    }
+  }
+
+  private static Seq dateTime(FormatContext context, FormatTraits traits) {
     DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
 
-- 
2.43.0

