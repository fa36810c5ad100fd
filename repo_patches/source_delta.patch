From ee7834e369b2774fffb285c3f6bb1c0b2026ecd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 001/100] fix: order statistics keep a strict weak order when
 the data contain NaN

---
 indicators/hf.cc    | 13 +++++++------
 indicators/hfema.cc | 13 +++++++------
 indicators/hfsma.cc | 19 ++++++++++---------
 indicators/rmf.cc   |  5 +++--
 utils/nanlast.hh    | 14 ++++++++++++++
 5 files changed, 41 insertions(+), 23 deletions(-)
 create mode 100644 utils/nanlast.hh

diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..da7b411 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -10,6 +10,7 @@
 #include <set>
 
 #include "../indicators.h"
+#include "../utils/nanlast.hh"
 #include "../utils/log.h"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
@@ -30,7 +31,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::vector<TI_REAL> a(2*k+1);
 
     int i = 0;
@@ -48,7 +49,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
             ++j;
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -69,7 +70,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
 
     int i = 0;
     for (; i < 2*k && i < size; ++i) {
@@ -85,7 +86,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
             a.push_back(fabs(price - median_price));
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -106,7 +107,7 @@ struct ti_hf_stream : ti_stream {
 
     struct {
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::vector<TI_REAL> absbuf;
     } state;
 
@@ -171,7 +172,7 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
             ++j;
         }
 
-        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end());
+        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end(), nan_last());
         TI_REAL median_deviation = absbuf[k];
 
         TI_REAL candidate = series[i];
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..5512580 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -10,6 +10,7 @@
 #include <algorithm>
 
 #include "../indicators.h"
+#include "../utils/nanlast.hh"
 #include "../utils/ringbuf.hh"
 #include "../utils/log.h"
 
@@ -33,7 +34,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL ema;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     ringbuf<0> price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -59,7 +60,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = price[k];
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
@@ -96,13 +97,13 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = ema[i-2*(int)k+j];
         }
-        std::sort(data, data+2*k+1);
+        std::sort(data, data+2*k+1, nan_last());
         TI_REAL median_price = data[(int)k];
 
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = fabs(data[j] - median_price);
         }
-        std::sort(data, data+2*k+1);
+        std::sort(data, data+2*k+1, nan_last());
         TI_REAL median_deviation = data[(int)k];
 
         TI_REAL candidate = ema[i-(int)k];
@@ -126,7 +127,7 @@ struct ti_hfema_stream : ti_stream {
     struct {
         TI_REAL ema;
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::vector<TI_REAL> a;
     } state;
 
@@ -204,7 +205,7 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = price[k];
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..920f182 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -11,6 +11,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/nanlast.hh"
 #include "../utils/ringbuf.hh"
 
 int ti_hfsma_start(TI_REAL const *options) {
@@ -33,7 +34,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL sum = 0.;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     ringbuf<0> smoothed_price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -58,7 +59,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = smoothed_price[k];
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
@@ -92,13 +93,13 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = sma[i-2*(int)k+j];
         }
-        std::sort(data, data + 2*(int)k+1);
+        std::sort(data, data + 2*(int)k+1, nan_last());
         TI_REAL median_price = data[(int)k];
 
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = fabs(data[j] - median_price);
         }
-        std::sort(data, data + 2*(int)k+1);
+        std::sort(data, data + 2*(int)k+1, nan_last());
         TI_REAL median_deviation = data[(int)k];
 
         TI_REAL candidate = sma[i-(int)k];
@@ -121,7 +122,7 @@ struct ti_hfsma_stream : ti_stream {
 
     struct {
         TI_REAL sum;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         ringbuf<0> price;
         ringbuf<0> smoothed_price;
         std::vector<TI_REAL> a;
@@ -156,10 +157,10 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
@@ -180,7 +181,7 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     TI_REAL threshold = ptr->options.threshold;
 
     TI_REAL sum = ptr->state.sum;
-    std::multiset<TI_REAL> &rankedprice = ptr->state.rankedprice;
+    std::multiset<TI_REAL, nan_last> &rankedprice = ptr->state.rankedprice;
     auto &price = ptr->state.price;
     auto &smoothed_price = ptr->state.smoothed_price;
     auto &a = ptr->state.a;
@@ -209,7 +210,7 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = smoothed_price[k];
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..6b2eedb 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -10,6 +10,7 @@
 #include <set>
 
 #include "../indicators.h"
+#include "../utils/nanlast.hh"
 #include "../utils/localbuffer.h"
 #include "../utils/log.h"
 
@@ -33,7 +34,7 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
     TI_REAL rmf_val;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::deque<TI_REAL> price;
 
     TI_REAL alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
@@ -75,7 +76,7 @@ struct ti_rmf_stream : ti_stream {
 
     struct {
         TI_REAL rmf_val;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::deque<TI_REAL> price;
     } state;
 
diff --git a/utils/nanlast.hh b/utils/nanlast.hh
new file mode 100644
index 0000000..6de1ae2
--- /dev/null
+++ b/utils/nanlast.hh
@@ -0,0 +1,14 @@
+/*
+ * This file is part of tindicators, licensed under GNU LGPL v3.
+ */
+
+
+#pragma once
+
+#include "../indicators.h"
+
+/* Ordering for the sorted containers and algorithms that must survive NaN in the input:
+ * plain operator< is not a strict weak ordering when NaN is involved. NaN goes last. */
+struct nan_last {
+    bool operator()(TI_REAL a, TI_REAL b) const { return a < b || (b != b && a == a); }
+};
-- 
2.43.0


From 2bf81c113a6840260b58cf3fdfd819effa442f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 002/100] fix: zlema: valid start and no read before the input
 for periods 1 and 2

---
 indicators/zlema.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..eaff7d9 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 0 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,12 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    int i = ti_zlema_start(options);
+
+    TI_REAL val = input[i];
     *output++ = val;
 
-    int i;
-    for (i = lag; i < size; ++i) {
+    for (++i; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From 21819512ef02b0da3b51c7a348ca4f9aeced71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 003/100] fix: dpo: start and detrending offset for small
 periods

---
 indicators/dpo.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..aa5dbbf 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    const int back = period / 2 + 1;
+    return back > period-1 ? back : period-1;
 }
 
 
@@ -32,12 +34,16 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    if (period-1 >= back) {
+        *output++ = input[period-1-back] - (sum * scale);
+    }
 
     for (i = period; i < size; ++i) {
         sum += input[i];
         sum -= input[i-period];
-        *output++ = input[i-back] - (sum * scale);
+        if (i >= back) {
+            *output++ = input[i-back] - (sum * scale);
+        }
     }
 
     assert(output - outputs[0] == size - ti_dpo_start(options));
-- 
2.43.0


From ade20830c847a735f4f7f7fa5c362f6c924cff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 004/100] fix: trunc, round: values beyond int range and exact
 halves

---
 indicators/round.cc | 2 +-
 indicators/trunc.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/round.cc b/indicators/round.cc
index 101330c..62268fa 100644
--- a/indicators/round.cc
+++ b/indicators/round.cc
@@ -11,4 +11,4 @@
 #include "simple1.h"
 
 
-SIMPLE1(ti_round_start, ti_round, floor(in1[i] + 0.5))
+SIMPLE1(ti_round_start, ti_round, floor(in1[i]) + (in1[i] - floor(in1[i]) >= 0.5))
diff --git a/indicators/trunc.cc b/indicators/trunc.cc
index f1b166d..9dfcb17 100644
--- a/indicators/trunc.cc
+++ b/indicators/trunc.cc
@@ -9,4 +9,4 @@
 #include "simple1.h"
 
 
-SIMPLE1(ti_trunc_start, ti_trunc, (int)(in1[i]))
+SIMPLE1(ti_trunc_start, ti_trunc, trunc(in1[i]))
-- 
2.43.0


From acd5ac3a4be89034da9f2019cfaabd96f3b7554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 005/100] fix: clamp rounding-negative variance before taking
 its root

---
 indicators/bbands.cc     |  5 +++--
 indicators/emsd.cc       | 24 ++++++++++++------------
 indicators/stddev.cc     |  9 +++++----
 indicators/stderr.cc     |  9 +++++----
 indicators/var.cc        |  5 +++--
 indicators/volatility.cc |  5 +++--
 6 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/indicators/bbands.cc b/indicators/bbands.cc
index d312c3e..69b31d6 100644
--- a/indicators/bbands.cc
+++ b/indicators/bbands.cc
@@ -6,6 +6,7 @@
 
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_bbands_start(TI_REAL const *options) {
@@ -36,7 +37,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 += input[i] * input[i];
     }
 
-    TI_REAL sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+    TI_REAL sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
     *middle = sum * scale;
     *lower++ = *middle - stddev * sd;
     *upper++ = *middle + stddev * sd;
@@ -49,7 +50,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+        sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
         *middle = sum * scale;
         *upper++ = *middle + stddev * sd;
         *lower++ = *middle - stddev * sd;
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..7f2ec42 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -42,7 +42,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -53,7 +53,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -64,8 +64,8 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
-    const TI_REAL ma_period = options[1];
+    const int period = options[0];
+    const int ma_period = options[1];
     TI_REAL *emsd = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -86,10 +86,10 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
-        sum -= series[i-(int)period+1];
-        sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
+        sum -= series[i-period+1];
+        sum2 -= series[i-period+1]*series[i-period+1];
     }
     for (; i < size; ++i) {
         sum += series[i];
@@ -97,10 +97,10 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
-        sum -= series[i-(int)period+1];
-        sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
+        sum -= series[i-period+1];
+        sum2 -= series[i-period+1]*series[i-period+1];
     }
 
     return TI_OKAY;
@@ -184,7 +184,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - pow(sum*period_reciprocal, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
@@ -197,7 +197,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
diff --git a/indicators/stddev.cc b/indicators/stddev.cc
index 3d0ab82..5422338 100644
--- a/indicators/stddev.cc
+++ b/indicators/stddev.cc
@@ -8,6 +8,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_stddev_start(TI_REAL const *options) {
@@ -34,8 +35,8 @@ int ti_stddev(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     }
 
     {
-        TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        TI_REAL s2s2 = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
+        s2s2 = sqrt(s2s2);
         *output++ = s2s2;
     }
 
@@ -46,8 +47,8 @@ int ti_stddev(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        TI_REAL s2s2 = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
+        s2s2 = sqrt(s2s2);
         *output++ = s2s2;
     }
 
diff --git a/indicators/stderr.cc b/indicators/stderr.cc
index 4094c7b..86225c2 100644
--- a/indicators/stderr.cc
+++ b/indicators/stderr.cc
@@ -8,6 +8,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_stderr_start(TI_REAL const *options) {
@@ -36,8 +37,8 @@ int ti_stderr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     }
 
     {
-        TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        TI_REAL s2s2 = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
+        s2s2 = sqrt(s2s2);
         *output++ = mul * s2s2;
     }
 
@@ -48,8 +49,8 @@ int ti_stderr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        TI_REAL s2s2 = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
+        s2s2 = sqrt(s2s2);
         *output++ = mul * s2s2;
     }
 
diff --git a/indicators/var.cc b/indicators/var.cc
index 8f09537..16d5ae9 100644
--- a/indicators/var.cc
+++ b/indicators/var.cc
@@ -8,6 +8,7 @@
 
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_var_start(TI_REAL const *options) {
@@ -34,7 +35,7 @@ int ti_var(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum2 += input[i] * input[i];
     }
 
-    *output++ = sum2 * scale - (sum * scale) * (sum * scale);
+    *output++ = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
 
     for (i = period; i < size; ++i) {
         sum += input[i];
@@ -43,7 +44,7 @@ int ti_var(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        *output++ = sum2 * scale - (sum * scale) * (sum * scale);
+        *output++ = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
     }
 
     assert(output - outputs[0] == size - ti_var_start(options));
diff --git a/indicators/volatility.cc b/indicators/volatility.cc
index 8a4871b..4a7aa6a 100644
--- a/indicators/volatility.cc
+++ b/indicators/volatility.cc
@@ -8,6 +8,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 #define CHANGE(i) (input[i-1] ? input[i]/input[i-1]-1.0 : 0)
 
@@ -38,7 +39,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum2 += c * c;
     }
 
-    *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+    *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
 
     for (i = period+1; i < size; ++i) {
         const TI_REAL c = CHANGE(i);
@@ -49,7 +50,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum -= cp;
         sum2 -= cp * cp;
 
-        *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+        *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
     }
 
     assert(output - outputs[0] == size - ti_volatility_start(options));
-- 
2.43.0


From b9b77bfac6dd4976c655fc3845741f701b43508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 006/100] fix: decay, edecay: reject periods below 1

---
 indicators/decay.cc  | 2 ++
 indicators/edecay.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/indicators/decay.cc b/indicators/decay.cc
index 3d7fbec..a705426 100644
--- a/indicators/decay.cc
+++ b/indicators/decay.cc
@@ -20,6 +20,8 @@ int ti_decay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     const int period = (int)options[0];
     const TI_REAL scale = 1.0 / period;
 
+    if (period < 1) return TI_INVALID_OPTION;
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
diff --git a/indicators/edecay.cc b/indicators/edecay.cc
index 3554ba6..ba9829f 100644
--- a/indicators/edecay.cc
+++ b/indicators/edecay.cc
@@ -20,6 +20,8 @@ int ti_edecay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *output = outputs[0];
     const TI_REAL scale = 1.0 - 1.0 / period;
 
+    if (period < 1) return TI_INVALID_OPTION;
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
-- 
2.43.0


From 1ec64926aea49299c844a925df5fb30c0d975edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 007/100] fix: rmta: period 1

---
 indicators/rmta.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/indicators/rmta.cc b/indicators/rmta.cc
index 6e99da6..c7b91cf 100644
--- a/indicators/rmta.cc
+++ b/indicators/rmta.cc
@@ -29,13 +29,16 @@ int ti_rmta(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL b = (1. - alpha) * input[0] + input[0];
     TI_REAL rmta = (1. - alpha) * input[0] + alpha * (input[0] + b);
 
-    for (int i = 1; i < period-1; ++i) {
+    if (period == 1) { *output++ = rmta; }
+
+    int i = 1;
+    for (; i < period-1; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
     }
 
-    for (int i = period-1; i < size; ++i) {
+    for (; i < size; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
-- 
2.43.0


From 67468b939dfa1bd39dee08df8b1cbd923c0e52c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 008/100] fix: vidya: zero long deviation and read past the
 input

---
 indicators/vidya.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..7eb6a34 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,7 +40,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
@@ -56,7 +56,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (long_period - 1 < size) {
         TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
         TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-        TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+        TI_REAL k = long_stddev > 0.0 ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -80,7 +80,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         {
             TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
             TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-            TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+            TI_REAL k = long_stddev > 0.0 ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0


From 4b42a4711f8a2d5b6bc990204075c5a378d9a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 009/100] fix: wma, hma: weight product overflows int; hma
 period 1

---
 indicators/hma.cc | 6 +++---
 indicators/wma.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..d0764b1 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,11 +29,11 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
-    const TI_REAL weights = period * (period+1) / 2;
-    const TI_REAL weights2 = period2 * (period2+1) / 2;
+    const TI_REAL weights = period * (period+1.) / 2;
+    const TI_REAL weights2 = period2 * (period2+1.) / 2;
     const TI_REAL weightssqrt = periodsqrt * (periodsqrt+1) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
diff --git a/indicators/wma.cc b/indicators/wma.cc
index afdd0fb..c6635c1 100644
--- a/indicators/wma.cc
+++ b/indicators/wma.cc
@@ -25,7 +25,7 @@ int ti_wma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
      * 1 2 3 4 5 6
      */
 
-    const TI_REAL weights = period * (period+1) / 2;
+    const TI_REAL weights = period * (period+1.) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers. */
-- 
2.43.0


From ad251b7e1a88a773bd2e242bafa1272f380cb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 010/100] fix: linear regression sums overflow int for long
 periods

---
 indicators/trend.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/trend.h b/indicators/trend.h
index 847185d..6c26b58 100644
--- a/indicators/trend.h
+++ b/indicators/trend.h
@@ -41,13 +41,13 @@
     int i; \
     for (i = 0; i < (period)-1; ++i) { \
         x += i+1; \
-        x2 += (i+1)*(i+1); \
+        x2 += (i+1.)*(i+1.); \
         xy += (input)[i] * (i+1); \
         y += (input)[i]; \
     } \
  \
     x += (period); \
-    x2 += (period) * (period); \
+    x2 += (TI_REAL)(period) * (period); \
  \
     const TI_REAL bd = 1.0 / ((period) * x2 - x * x); \
  \
-- 
2.43.0


From 732c61579992537d5a778b900d00b49e369aff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 011/100] fix: ultosc: equal periods

---
 indicators/ultosc.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..ad5be8f 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -51,25 +51,26 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         r_short_sum += r;
         r_medium_sum += r;
 
-        ti_buffer_push(bp_buf, bp);
-        ti_buffer_push(r_buf, r);
-
         /* The long sum takes care of itself, but we're piggy-backing
-         * the medium and short sums off the same buffers. */
+         * the medium and short sums off the same buffers. This must precede
+         * the push, which overwrites the oldest value. */
         if (i > short_period) {
-            int short_index = bp_buf->index - short_period - 1;
+            int short_index = bp_buf->index - short_period;
             if (short_index < 0) short_index += long_period;
             bp_short_sum -= bp_buf->vals[short_index];
             r_short_sum -= r_buf->vals[short_index];
 
             if (i > medium_period) {
-                int medium_index = bp_buf->index - medium_period - 1;
+                int medium_index = bp_buf->index - medium_period;
                 if (medium_index < 0) medium_index += long_period;
                 bp_medium_sum -= bp_buf->vals[medium_index];
                 r_medium_sum -= r_buf->vals[medium_index];
             }
         }
 
+        ti_buffer_push(bp_buf, bp);
+        ti_buffer_push(r_buf, r);
+
         if (i >= long_period) {
             const TI_REAL first = bp_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
             const TI_REAL second = bp_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
-- 
2.43.0


From 82db6088c1b36000adb9ec1ea62c9fcb0bc90e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 012/100] fix: gf3: filter coefficients

---
 indicators/gf3.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/indicators/gf3.cc b/indicators/gf3.cc
index f2a9e0f..9745d57 100644
--- a/indicators/gf3.cc
+++ b/indicators/gf3.cc
@@ -38,9 +38,9 @@ int ti_gf3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -66,9 +66,9 @@ DONTOPTIMIZE int ti_gf3_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -117,9 +117,9 @@ int ti_gf3_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     const int idx = period/2-1;
     ptr->constants.B0 = tables.B0[idx];
-    ptr->constants.A1 = tables.B0[idx];
-    ptr->constants.A2 = tables.B0[idx];
-    ptr->constants.A3 = tables.B0[idx];
+    ptr->constants.A1 = tables.A1[idx];
+    ptr->constants.A2 = tables.A2[idx];
+    ptr->constants.A3 = tables.A3[idx];
     ptr->constants.csum_recipr = 1. / (ptr->constants.B0 + ptr->constants.A1 + ptr->constants.A2 + ptr->constants.A3);
 
     return TI_OKAY;
-- 
2.43.0


From 30ced9e51dd18b9e7eb7c62bc1cdc43a3814f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 013/100] fix: gf4: inputs shorter than the filter

---
 indicators/gf4.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..dc76ba7 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
-- 
2.43.0


From b728ba802ddeb17599765497569ff1109bf81395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 014/100] fix: hwma: no table access before the period is
 validated

---
 indicators/hwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/hwma.cc b/indicators/hwma.cc
index a42fbf5..3c81645 100644
--- a/indicators/hwma.cc
+++ b/indicators/hwma.cc
@@ -34,10 +34,10 @@ int ti_hwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const int period = options[0];
     TI_REAL *hwma = outputs[0];
 
-    auto &c = tables.coefficients[period-7];
-
     if (period < 7 || period > 13) { return TI_INVALID_OPTION; }
 
+    auto &c = tables.coefficients[period-7];
+
     for (int i = period-1; i < size; ++i) {
         TI_REAL filt = 0;
         for (int j = 0; j < period; ++j) {
-- 
2.43.0


From eedaa336dc0c8c82b89c9278a50df572b9464ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 015/100] fix: kst: inputs shorter than the start; reference
 compares whole periods

---
 indicators/kst.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..7211fe8 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -55,6 +55,8 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
 
@@ -113,7 +115,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *kst_signal = outputs[1];
 
 
-    if(!(roc[0] < roc[1] && roc[1] < roc[2] && roc[2] < roc[3])) {
+    if(!((int)roc[0] < (int)roc[1] && (int)roc[1] < (int)roc[2] && (int)roc[2] < (int)roc[3])) {
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
@@ -122,6 +124,8 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     int size_roc[4];
     int size_ema[4];
     TI_REAL *roc_mem[4];
-- 
2.43.0


From 5f375d79f2a3740829dfb2f96450160c70f2e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 016/100] fix: vi: short inputs are not an invalid option;
 reference on zero true range

---
 indicators/vi.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..2177163 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
@@ -61,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
@@ -86,16 +88,16 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
         vm_m_period[period] += vm_m[k];
         TR_period[period] += TR[k];
  
-        vi_p[0] = vm_p_period[period] / TR_period[period];
-        vi_m[0] = vm_m_period[period] / TR_period[period];
+        vi_p[0] = vm_p_period[period] ? vm_p_period[period] / TR_period[period] : 0;
+        vi_m[0] = vm_m_period[period] ? vm_m_period[period] / TR_period[period] : 0;
     }
     for (int i = period + 1; i < size; i++) {
         vm_p_period[i] = vm_p_period[i - 1] - vm_p[i - period] + vm_p[i];
         vm_m_period[i] = vm_m_period[i - 1] - vm_m[i - period] + vm_m[i];
         TR_period[i] = TR_period[i - 1] - TR[i - period] + TR[i];
 
-        vi_p[i - period] = vm_p_period[i] / TR_period[i];
-        vi_m[i - period] = vm_m_period[i] / TR_period[i];
+        vi_p[i - period] = vm_p_period[i] ? vm_p_period[i] / TR_period[i] : 0;
+        vi_m[i - period] = vm_m_period[i] ? vm_m_period[i] / TR_period[i] : 0;
     }
     
     return TI_OKAY;
-- 
2.43.0


From eb779899cb672469dc95db1da675ab9e4bc57f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 017/100] fix: mhlma: moving average period 1

---
 indicators/mhlma.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..6532a48 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -49,6 +49,13 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -234,6 +241,13 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
-- 
2.43.0


From 502a0eb742d21a4837ffd9c39fbb6962d3ef6d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 018/100] fix: ce: period 1; reference validation and
 fractional period

---
 indicators/ce.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..026b499 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,11 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -118,8 +123,8 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *ce_high = outputs[0];
     TI_REAL *ce_low = outputs[1];
 
-    if (size <= ti_ce_start(options)) { return TI_OKAY; }
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_ce_start(options)) { return TI_OKAY; }
 
     #define MAX(a, b) (a > b ? a : b)
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
@@ -135,7 +140,7 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 	ti_min(size, &low, &period, &min);
 
 
-    for (int i = 0; i < size - period + 1; ++i) {
+    for (int i = 0; i < size - ti_ce_start(options); ++i) {
         ce_high[i] = max[i] - coef * atr[i];
         ce_low[i] = min[i] + coef * atr[i];
     }
@@ -243,6 +248,11 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         max_idx = progress;
         min_idx = progress;
 
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
+
         prev_close = close[i];
     }
     for (i; progress < 0 && i < size; ++i, ++progress, step(price_high, price_low)) {
-- 
2.43.0


From 003b4222619fc4325b88800a64503e48dac966dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 019/100] fix: cmi: stream freed as its own type, period 1,
 reference on short inputs

---
 indicators/cmi.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..b4de3f7 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -44,6 +44,12 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+
+            sum -= tr;
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -93,6 +99,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
     TI_REAL *tr = new TI_REAL[size];
     TI_REAL *sum = new TI_REAL[size-(int)period+1];
@@ -116,7 +123,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
 struct ti_cmi_stream : ti_stream {
 
     struct {
-        TI_REAL period;
+        int period;
     } options;
 
     struct {
@@ -156,7 +163,7 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
@@ -167,7 +174,7 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     TI_REAL const *const close = inputs[2];
     TI_REAL *cmi = outputs[0];
     int progress = ptr->progress;
-    const TI_REAL period = ptr->options.period;
+    const int period = ptr->options.period;
     TI_REAL sum = ptr->state.sum;
     TI_REAL hh = ptr->state.hh;
     TI_REAL ll = ptr->state.ll;
@@ -186,6 +193,12 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+
+            sum -= tr;
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
-- 
2.43.0


From c33ea6417bc44521fbaab5bf5f797188c7a99f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 020/100] fix: mesastoch: short ring for periods 1 and 2;
 reference on flat data

---
 indicators/mesastoch.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..3a4029f 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -40,7 +40,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int highestC_idx;
     int lowestC_idx;
 
-    ringbuf<0> filt(period);
+    ringbuf<0> filt(std::max(period, 3)); /* the filter itself needs two previous values */
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -77,7 +77,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             highestC_idx = i;
             highestC = filt;
         } else if (highestC_idx == i - period) {
-            TI_REAL* it = std::max_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_max(period);
             highestC = *it;
             highestC_idx = i - filt.iterator_to_age(it);
         }
@@ -85,7 +85,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             lowestC_idx = i;
             lowestC = filt;
         } else if (lowestC_idx == i - period) {
-            TI_REAL* it = std::min_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_min(period);
             lowestC = *it;
             lowestC_idx = i - filt.iterator_to_age(it);
         }
@@ -110,7 +110,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
 
-    std::deque<TI_REAL> filt(period);
+    std::deque<TI_REAL> filt(std::max(period, 3));
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -124,7 +124,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     TI_REAL lowestC;
 
     int i = 2;
-    for (; i < ti_mesastoch_start(options); ++i) {
+    for (; i < ti_mesastoch_start(options) && i < size; ++i) {
         filt.pop_back(); filt.push_front(0);
         HP.pop_back(); HP.push_front(0);
         stoc.pop_back(); stoc.push_front(0);
@@ -157,10 +157,10 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c1 = 1 - c2 - c3;
         filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
 
-        highestC = *std::max_element(filt.begin(), filt.end());
-        lowestC = *std::min_element(filt.begin(), filt.end());
+        highestC = *std::max_element(filt.begin(), filt.begin() + period);
+        lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
-        stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
+        stoc[0] = (filt[0] - lowestC) ? (filt[0] - lowestC) / (highestC - lowestC) : 0;
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
 
         *mesastoch++ = result[0];
@@ -225,7 +225,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.c1 = 1 - (ptr->constants.c2) - (ptr->constants.c3);
 
     try {
-        ptr->store.filt.resize(period);
+        ptr->store.filt.resize(std::max(period, 3));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
-- 
2.43.0


From 07022e708f5ffee9789c9ae9c791e3fbd25e91cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 021/100] fix: frama: fractional period; stream validates the
 averaging period

---
 indicators/frama.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..3aa6d83 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -23,13 +23,13 @@ int ti_frama_start(TI_REAL const *options) {
 int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
-    TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL average_period = options[1];
     TI_REAL *frama = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (average_period < 2) { return TI_INVALID_OPTION; }
-    if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
+    if (period % 2 != 0) { return TI_INVALID_OPTION; }
     if (size <= ti_frama_start(options)) { return TI_OKAY; }
 
     const TI_REAL w = log(2.0 / (1.0 + average_period));
@@ -111,7 +111,7 @@ int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 struct ti_frama_stream : ti_stream {
 
     struct {
-        TI_REAL period;
+        int period;
         TI_REAL average_period;
     } options;
 
@@ -137,11 +137,12 @@ struct ti_frama_stream : ti_stream {
 };
 
 int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
-    TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
+    if (average_period < 2) { return TI_INVALID_OPTION; }
+    if (period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
@@ -168,7 +169,7 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     TI_REAL const *low = inputs[1];
     TI_REAL *frama = outputs[0];
     int progress = ptr->progress;
-    TI_REAL period = ptr->options.period; // N in the paper
+    const int period = ptr->options.period; // N in the paper
     TI_REAL average_period = ptr->options.average_period;
 
     std::deque<TI_REAL> &high_store = ptr->high_store;
-- 
2.43.0


From 38901ca949908b9e6a74f5067f235aa7dacd2cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 022/100] fix: rmi: fractional lookback; reference on flat data
 and short inputs

---
 indicators/rmi.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..c262aa1 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -26,7 +26,7 @@ int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
-    if (size < lookback_period + 1) { return TI_OKAY; }
+    if (size <= ti_rmi_start(options)) { return TI_OKAY; }
 
     TI_REAL gains_ema;
     TI_REAL losses_ema;
@@ -59,6 +59,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_rmi_start(options)) { return TI_OKAY; }
 
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
@@ -74,7 +75,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *inputs_[] = {gains, losses};
     ti_add(size-start, inputs_, 0, &losses);
     for (int i = 0; i < size-start; ++i) {
-        *rmi++ = gains[i] / losses[i] * 100.;
+        *rmi++ = gains[i] ? gains[i] / losses[i] * 100. : 0;
     }
 
     free(gains);
@@ -120,6 +121,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 7ab6a169bf7bee4c25e7f8fcf680bb15cededa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 023/100] fix: smi: fractional and unit periods; stream keeps
 real smoothing periods

---
 indicators/smi.cc | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..e11f361 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -21,7 +21,7 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL q_period = options[0];
+    const int q_period = options[0];
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
@@ -34,21 +34,15 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL ema_s_num;
     TI_REAL ema_r_den;
     TI_REAL ema_s_den;
-    TI_REAL ll;
-    TI_REAL hh;
-    int hh_idx;
-    int ll_idx;
+    TI_REAL ll = std::numeric_limits<TI_REAL>::infinity();
+    TI_REAL hh = -std::numeric_limits<TI_REAL>::infinity();
+    int hh_idx = 0;
+    int ll_idx = 0;
 
     TI_REAL var1;
 
     int i = 0;
 
-    for (; i < size && progress == -q_period + 1; ++i, ++progress) {
-        hh = high[i];
-        hh_idx = progress;
-        ll = low[i];
-        ll_idx = progress;
-    }
     for (; i < size && progress < 0; ++i, ++progress) {
         if (hh <= high[i]) {
             hh = high[i];
@@ -129,6 +123,8 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_smi_start(options)) { return TI_OKAY; }
+
     int outsize = size - ti_max_start(&q_period);
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
@@ -152,7 +148,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &den, &s_period, &den);
 
     for (int i = 0; i < outsize; ++i) {
-        smi[i] = 100. * num[i] / (0.5 * den[i]);
+        smi[i] = den[i] ? 100. * num[i] / (0.5 * den[i]) : 0;
     }
 
     free(max);
@@ -166,8 +162,8 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 struct ti_smi_stream : ti_stream {
     struct {
         int q_period;
-        int r_period;
-        int s_period;
+        TI_REAL r_period;
+        TI_REAL s_period;
     } options;
 
     struct {
@@ -196,7 +192,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream;
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
@@ -232,8 +228,8 @@ int ti_smi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ti_smi_stream *ptr = static_cast<ti_smi_stream*>(stream);
 
     const int q_period = ptr->options.q_period;
-    const int r_period = ptr->options.r_period;
-    const int s_period = ptr->options.s_period;
+    const TI_REAL r_period = ptr->options.r_period;
+    const TI_REAL s_period = ptr->options.s_period;
 
     int progress = ptr->progress;
 
-- 
2.43.0


From f9d7e6e9b08423fd84379eded8f752a2a77dc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 024/100] fix: pvt: zero volume; reference on empty input

---
 indicators/pvt.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..e74a7ea 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -24,10 +24,10 @@ int ti_pvt(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 1;
     for (; i < 2 && i < size; ++i) {
-        *pvt++ = volume[i] && volume[i-1] ? volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1] : 0;
+        *pvt++ = volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1];
     }
     for (; i < size; i++) {
-        *pvt = volume[i] && volume[i-1] ? *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1] : 0;
+        *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1];
         pvt++;
     }
 
@@ -40,6 +40,8 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
+
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
@@ -94,7 +96,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     } 
  
     if (progress == 0 && index < size) {
-        last_pvt = volume[index] && starting ? volume[index] * (close[index] - last_close) / last_close + starting : 0;
+        last_pvt = volume[index] * (close[index] - last_close) / last_close + starting;
         last_close = close[index];
 
         *pvt++ = last_pvt;
@@ -104,7 +106,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     }
 
     for (; index < size; index++) {
-        last_pvt += volume[index] && last_pvt ? volume[index] * (close[index] - last_close) / last_close : 0;
+        last_pvt += volume[index] * (close[index] - last_close) / last_close;
         last_close = close[index];
 
         *pvt++ = last_pvt;
-- 
2.43.0


From 55b2541e85b4d48a135246d9dad83c25a515bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 025/100] fix: fi: reference validates its option

---
 indicators/fi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/fi.cc b/indicators/fi.cc
index fc5ccc7..7405d34 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -41,6 +41,7 @@ int ti_fi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL const period = options[0];
     TI_REAL *fi = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_fi_start(options)) { return TI_OKAY; }
 
     for (int i = 1; i < size; ++i) {
-- 
2.43.0


From 1cf4ebfe00d3255d99b71ba0cdff2f94dfb6cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 026/100] fix: copp: whole periods, zero base price in the
 reference, short inputs

---
 indicators/copp.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..d8b9017 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -11,9 +11,9 @@
 #include "../utils/log.h"
 
 int ti_copp_start(TI_REAL const *options) {
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     #define START (roc_longer_period + wma_period-1)
     return START;
 }
@@ -21,15 +21,15 @@ int ti_copp_start(TI_REAL const *options) {
 
 int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
-    if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
+    if (options[1] < options[0]) { return TI_INVALID_OPTION; }
     if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     ringbuf<0> price(roc_longer_period+1);
@@ -83,8 +83,8 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
-    if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
-    if (size < ti_copp_start(options)) { return TI_OKAY; }
+    if (options[1] < options[0]) { return TI_INVALID_OPTION; }
+    if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     // wma of (roc1 + roc2) / 2 * 100
 
@@ -102,7 +102,9 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_roc(size, &series, &roc_longer_period, &roc_long);
 
     for (int i = 0; i < roc_long_len; ++i) {
-        interm[i] = (roc_long[i] + roc_short[i+(roc_short_len-roc_long_len)]) * 100. / 2.;
+        interm[i] = series[i] && series[i+(int)roc_longer_period-(int)roc_shorter_period]
+            ? (roc_long[i] + roc_short[i+(roc_short_len-roc_long_len)]) * 100. / 2.
+            : 0.;
     }
 
     ti_wma(roc_long_len, &interm, &wma_period, &copp);
@@ -144,9 +146,9 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
-    if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
+    if (options[1] < options[0]) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
@@ -158,7 +160,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.roc_longer_period = roc_longer_period;
     ptr->options.wma_period = wma_period;
 
-    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1) / 2);
+    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1.) / 2.);
 
     ptr->state.flat_rocs_sum = 0.;
     ptr->state.weighted_rocs_sum = 0.;
-- 
2.43.0


From 95cd46f7b8a4d9fa712c0c29097c2d865df66a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 027/100] fix: hurst: fractional period reads before the input

---
 indicators/hurst.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index b31c325..06d9374 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -14,14 +14,14 @@
 #include "../utils/ringbuf.hh"
 
 int ti_hurst_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     return period;
 }
 
 int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
@@ -72,13 +72,13 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 DONTOPTIMIZE
 int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
     if (period < 2) { return TI_INVALID_OPTION; }
 
-    #define r(i) log(series[(i)]/series[(i)-1])
+    #define r(i) (series[(i)] && series[(i)-1] ? log(series[(i)]/series[(i)-1]) : 0)
 
     for (int i = period; i < size; ++i) {
         TI_REAL mean = 0;
@@ -106,7 +106,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         TI_REAL R = max_cum_meandev - min_cum_meandev;
         TI_REAL S = stddev;
 
-        TI_REAL H = log(R/S) / log(period);
+        TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
     }
@@ -119,7 +119,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 struct ti_hurst_stream : ti_stream {
 
     struct {
-        TI_REAL period;
+        int period;
     } options;
 
     struct {
@@ -134,7 +134,7 @@ struct ti_hurst_stream : ti_stream {
 };
 
 int ti_hurst_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     if (period < 2) { return TI_INVALID_OPTION; }
 
@@ -167,7 +167,7 @@ int ti_hurst_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
     int progress = ptr->progress;
-    const TI_REAL period = ptr->options.period;
+    const int period = ptr->options.period;
 
     auto &r = ptr->state.r;
     auto &price = ptr->state.price;
-- 
2.43.0


From ded69cc0e9be32485cbafe9e60e988a3dbda1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 028/100] fix: trix: period 1

---
 indicators/trix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trix.cc b/indicators/trix.cc
index 88b334d..cdabad2 100644
--- a/indicators/trix.cc
+++ b/indicators/trix.cc
@@ -27,7 +27,7 @@ int ti_trix(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     TI_REAL ema1 = input[0];
-    TI_REAL ema2 = 0, ema3 = 0;
+    TI_REAL ema2 = ema1, ema3 = ema1;
 
     int i;
     for (i = 1; i < start; ++i) {
-- 
2.43.0


From e1680b9cd03a63765f89c3f6254a39d6817bb3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 029/100] fix: cvi: period 1 reads an unset value

---
 indicators/cvi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..30588dd 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -31,6 +31,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     ti_buffer *lag = ti_buffer_new(period);
 
     TI_REAL val = high[0]-low[0];
+    ti_buffer_qpush(lag, val);
 
     int i;
     for (i = 1; i < period*2-1; ++i) {
-- 
2.43.0


From 8a421694d5f70cd38e26c0c082751bc3f6af2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 030/100] fix: dwma: whole period in start; reference on short
 inputs; leak when out of memory

---
 indicators/dwma.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..f0534ae 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -13,7 +13,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_dwma_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     return 2*(period-1);
 }
@@ -82,11 +82,13 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    std::vector<TI_REAL> smooth1(size-period+1);
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
+
+    std::vector<TI_REAL> smooth1(size-ti_wma_start(options));
     TI_REAL *arr[1] = {smooth1.data()};
     ti_wma(size, inputs, options, arr);
 
-    ti_wma(size-period+1, arr, options, outputs);
+    ti_wma(size-ti_wma_start(options), arr, options, outputs);
 
     return TI_OKAY;
 }
@@ -129,14 +131,14 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
-    
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
 
     try {
+        ptr->state.price.resize(period);
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 8cb00d2ee9d1dc44667d14a19f48589a9a2b3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 031/100] fix: lma: reference on short inputs; stream constants
 from the whole period

---
 indicators/lma.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..3325aee 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -60,8 +60,11 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    std::vector<TI_REAL> wma_price(size-period+1);
-    std::vector<TI_REAL> sma_price(size-period+1);
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
+
+    const int outsize = size-ti_lma_start(options);
+    std::vector<TI_REAL> wma_price(outsize);
+    std::vector<TI_REAL> sma_price(outsize);
 
     TI_REAL* arr[1];
  
@@ -70,7 +73,7 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     arr[0] = sma_price.data();
     ti_sma(size, &series, &period, arr);
 
-    for (int i = 0; i < size-period+1; ++i) {
+    for (int i = 0; i < outsize; ++i) {
         lma[i] = 2*wma_price[i] - sma_price[i];
     }
 
@@ -116,8 +119,8 @@ int ti_lma_stream_new(TI_REAL const *options, ti_stream **stream) {
         return TI_OUT_OF_MEMORY;
     }
 
-    ptr->constants.denom_recipr = 1. / ((1 + period) / 2. * period);
-    ptr->constants.period_recipr = 1. / period;
+    ptr->constants.denom_recipr = 1. / ((1 + ptr->options.period) / 2. * ptr->options.period);
+    ptr->constants.period_recipr = 1. / ptr->options.period;
 
     return TI_OKAY;
 }
-- 
2.43.0


From b2938030e7839c10212d66e90c21f22306bce716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 032/100] fix: posc, pbands: int overflow, reference
 validation, whole periods in the streams

---
 indicators/pbands.cc | 25 ++++++++++++++-----------
 indicators/posc.cc   | 30 +++++++++++++++++-------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..123f921 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -10,7 +10,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_pbands_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
     return period-1;
 }
 
@@ -27,8 +27,8 @@ int ti_pbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = period * (period + 1.) / 2.;
+    const TI_REAL xsq_sum = period * (period + 1.) * (2.*period + 1.) / 6.;
 
     TI_REAL max;
     TI_REAL min;
@@ -75,14 +75,17 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_pbands_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
-    ti_linregslope(size, &close, &period, &b);
+    ti_linregslope(size, &close, options, &b);
 
     for (int i = start; i < size; ++i) {
         TI_REAL the_max = high[i];
@@ -110,7 +113,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
 
 struct ti_pbands_stream : ti_stream {
     struct {
-        TI_REAL period;
+        int period;
     } options;
 
     struct {
@@ -129,10 +132,10 @@ struct ti_pbands_stream : ti_stream {
 };
 
 int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
@@ -144,8 +147,8 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = period * (period + 1.) / 2.;
+    ptr->constants.xsq_sum = period * (period + 1.) * (2.*period + 1.) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
@@ -174,7 +177,7 @@ int ti_pbands_stream_run(ti_stream *stream, int size, TI_REAL const *const *inpu
 
     int progress = ptr->progress;
 
-    const TI_REAL period = ptr->options.period;
+    const int period = ptr->options.period;
 
     TI_REAL y_sum = ptr->state.y_sum;
     TI_REAL xy_sum = ptr->state.xy_sum;
diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..a39cbb2 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -11,7 +11,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_posc_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL ema_period = options[1];
     return period-1;
 }
@@ -33,8 +33,8 @@ int ti_posc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL xy_sum = 0.;
     TI_REAL ema;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = period * (period + 1.) / 2.;
+    const TI_REAL xsq_sum = period * (period + 1.) * (2.*period + 1.) / 6.;
 
     int i = 0;
     for (; i < period-1 && i < size; ++i) {
@@ -94,14 +94,18 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_posc_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
-    ti_linregslope(size, &close, &period, &b);
+    ti_linregslope(size, &close, options, &b);
 
     for (int i = start; i < size; ++i) {
         TI_REAL the_max = high[i];
@@ -117,7 +121,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             }
         }
 
-        posc[i-start] = (close[i] - the_min) / (the_max - the_min) * 100.;
+        posc[i-start] = (close[i] - the_min) ? (close[i] - the_min) / (the_max - the_min) * 100. : 0;
     }
     ti_ema(size-start, &posc, &ema_period, &posc);
 
@@ -129,8 +133,8 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
 struct ti_posc_stream : ti_stream {
     struct {
-        TI_REAL period;
-        TI_REAL ema_period;
+        int period;
+        int ema_period;
     } options;
 
     struct {
@@ -150,7 +154,7 @@ struct ti_posc_stream : ti_stream {
 };
 
 int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL ema_period = options[1];
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
@@ -168,8 +172,8 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = period * (period + 1.) / 2.;
+    ptr->constants.xsq_sum = period * (period + 1.) * (2.*period + 1.) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
@@ -197,8 +201,8 @@ int ti_posc_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
     int progress = ptr->progress;
 
-    const TI_REAL period = ptr->options.period;
-    const TI_REAL ema_period = ptr->options.ema_period;
+    const int period = ptr->options.period;
+    const int ema_period = ptr->options.ema_period;
 
     TI_REAL y_sum = ptr->state.y_sum;
     TI_REAL xy_sum = ptr->state.xy_sum;
-- 
2.43.0


From 88d8b60e0d7fb158653b5ab4e806c6e631a0f00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 033/100] fix: rvi: int overflow

---
 indicators/rvi.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..e457514 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -27,8 +27,8 @@ int ti_rvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = stddev_period * (stddev_period + 1) / 2.;
-    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    const TI_REAL x_sum = stddev_period * (stddev_period + 1.) / 2.;
+    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1.) * (2.*stddev_period + 1.) / 6.;
 
     TI_REAL gains_ema = 0.;
     TI_REAL losses_ema = 0.;
@@ -106,8 +106,8 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.gains_ema = 0.;
     ptr->state.losses_ema = 0.;
 
-    ptr->constants.x_sum = stddev_period * (stddev_period + 1) / 2.;
-    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    ptr->constants.x_sum = stddev_period * (stddev_period + 1.) / 2.;
+    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1.) * (2.*stddev_period + 1.) / 6.;
 
     try {
         ptr->state.price.resize(stddev_period+1);
-- 
2.43.0


From ec74b36b1e5e88effcf56ffb723557e8b91439bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 034/100] fix: pfe: reference validation

---
 indicators/pfe.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 2e2b9a7..85c22b5 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -79,11 +79,12 @@ int ti_pfe(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *pfe = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pfe_start(options)) { return TI_OKAY; }
 
     for (int i = period; i < size; ++i) {
-- 
2.43.0


From 265d465ddb73b06d17f5febcf28a208a068a2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 035/100] fix: vwap: whole period; reference on short inputs

---
 indicators/vwap.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..7367759 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -18,7 +18,7 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
     TI_REAL const *volume = inputs[3];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -54,12 +54,14 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
     TI_REAL const *volume = inputs[3];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    int outsize = size - ti_typprice_start(&period);
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
+
+    int outsize = size - ti_typprice_start(options);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     ti_typprice(size, inputs, 0, &typprice);
     
@@ -109,7 +111,7 @@ struct ti_vwap_stream : ti_stream {
 };
 
 int ti_vwap_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
     ti_vwap_stream *ptr = new(std::nothrow) ti_vwap_stream();
-- 
2.43.0


From bdd1ee1be01faaa59d3f1055a8796a3585d1466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 036/100] fix: tsi: reference on flat data and short inputs

---
 indicators/tsi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index f07cd9f..0997500 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -66,6 +66,8 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_tsi_start(options)) { return TI_OKAY; }
+
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
@@ -81,7 +83,7 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &absmomentum, &z_period, &absmomentum);
 
     for (int i = 0; i < outsize; ++i) {
-        *tsi++ = 100. * momentum[i] / absmomentum[i];
+        *tsi++ = absmomentum[i] ? 100. * momentum[i] / absmomentum[i] : 0;
     }
 
     free(momentum);
-- 
2.43.0


From a464f29a88c0034f631aefacf62238774b8d8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 037/100] fix: kc: stream rejects periods below 1

---
 indicators/kc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..3cbe357 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -90,10 +90,10 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 0) { return TI_INVALID_OPTION; }
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 8981d3605d9d68026d249682c3db6237b0f540ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 038/100] fix: evwma: reference sums volumes as reals and
 handles zero volume

---
 indicators/evwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..578bc86 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -71,9 +71,9 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         *evwma++ = filt;
     }
     for (; i < size; ++i) {
-        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, 0);
+        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, TI_REAL(0));
 
-        filt = filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i];
+        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : 0;
 
         *evwma++ = filt;
     }
-- 
2.43.0


From 844b334fcff9236a5b43e74158171d3b7f7532d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 039/100] fix: ehma: reference smooths with the fractional
 period

---
 indicators/ehma.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 72634dd..55ec77d 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -68,19 +68,21 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     TI_REAL n = period;
     TI_REAL n05 = sqrt(period);
 
-    TI_REAL* arr_[1];
+    // not ti_ema: that one truncates the period
+    auto ema = [size](TI_REAL const *in, TI_REAL n, TI_REAL *out) {
+        for (int i = 0; i < size; ++i) {
+            out[i] = i ? (in[i] - out[i-1]) * 2. / (n + 1.) + out[i-1] : in[i];
+        }
+    };
 
-    arr_[0] = ema_n2.data();
-    ti_ema(size, &series, &n2, arr_);
-    arr_[0] = ema_n.data();
-    ti_ema(size, &series, &n, arr_);
+    ema(series, n2, ema_n2.data());
+    ema(series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    arr_[0] = subtr.data();
-    ti_ema(size, arr_, &n05, outputs);
+    ema(subtr.data(), n05, ehma);
 
     return TI_OKAY;
 }
-- 
2.43.0


From 17fc432e6099acec8f31124692e077bb9ac5c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 040/100] fix: arsi: stream price history shorter than the
 smoothing

---
 indicators/arsi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..05d2416 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,8 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    // the smoothing reads three prices back however short the cycle part is
+    ptr->state.Price.resize(std::max<TI_REAL>(cycpart * 50 + 1, 4));
 
     return TI_OKAY;
 }
-- 
2.43.0


From 9970a40583f1f2109a9bb621aac7dd6e007ebca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 041/100] fix: idwma: reference reads before the input for
 fractional periods

---
 indicators/idwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..3fd44f2 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -49,7 +49,7 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL exponent = options[1];
     TI_REAL *idwma = outputs[0];
 
@@ -67,7 +67,7 @@ DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         for (int j = 0; j < period; ++j) {
             numer += series[i-j] * 1 / pow(j+1, exponent);
         }
-        idwma[i-(int)period+1] = numer / denom;
+        idwma[i-period+1] = numer / denom;
     }
 
     return TI_OKAY;
-- 
2.43.0


From 0f4484ef7eb98d71157679f222dbcc59075b6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 042/100] fix: shmma: int overflow; reference reads before the
 input for fractional periods

---
 indicators/shmma.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..f9a66a6 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -36,7 +36,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * series[i-period+1];
@@ -48,7 +48,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *shmma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -64,7 +64,7 @@ DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
             S += (period - (j*2+1.)) / 2. * series[i-j];
         }
 
-        *shmma++ = T/period + (6*S)/((period+1) * period);
+        *shmma++ = T/period + (6*S)/((period+1.) * period);
     }
 
     return TI_OKAY;
@@ -134,7 +134,7 @@ int ti_shmma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * price[period-1];
-- 
2.43.0


From b0bc775dff44ea5bd779c6dce7269e2379919713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 043/100] fix: t3: reference on empty input

---
 indicators/t3.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/t3.cc b/indicators/t3.cc
index a197159..b113b7c 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -84,6 +84,7 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (v < 0) { return TI_INVALID_OPTION; }
+    if (size <= ti_t3_start(options)) { return TI_OKAY; }
 
     auto GD = [period, v](const std::vector<TI_REAL> &input) -> std::vector<TI_REAL> {
         const int size = input.size();
-- 
2.43.0


From 68b43a956940334cc29eb0350b0e60e39bec3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 044/100] fix: abands: reference on zero price sums

---
 indicators/abands.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..1ba47c0 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -94,9 +94,9 @@ int ti_abands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
         TI_REAL mid = 0;
         TI_REAL lower = 0;
         for (int j = i-period+1; j <= i; ++j) {
-            upper += (high[j] * (1. + 2. * ((((high[j] - low[j]) / ((high[j] + low[j]) / 2.)) * 1000.) * .001))) / period;
+            upper += (high[j] * (1. + MULT(j))) / period;
             mid += close[j] / period;
-            lower += (low[j] * (1. - 2. * ((((high[j] - low[j]) / ((high[j] + low[j]) / 2.)) * 1000.) * .001))) / period;
+            lower += (low[j] * (1. - MULT(j))) / period;
         }
         *upper_band++ = upper;
         *middle_point++ = mid;
-- 
2.43.0


From 3753cf0733445dfb324cb5051284cfbc8869a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 045/100] fix: abands: reference asserts on inputs shorter than
 the start

---
 indicators/abands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index 1ba47c0..f4ff16f 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -88,6 +88,7 @@ int ti_abands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *middle_point = outputs[2];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_abands_start(options)) return TI_OKAY;
 
     for (int i = period-1; i < size; ++i) {
         TI_REAL upper = 0;
-- 
2.43.0


From 40cd2ebde4d36bfcdfc1dd8f9dc1cb9a38f8f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 046/100] fix: ti_buffer_new and its callers report out of
 memory

---
 indicators/abands.cc   | 5 +++++
 indicators/adxr.cc     | 1 +
 indicators/cci.cc      | 1 +
 indicators/cvi.cc      | 1 +
 indicators/hma.cc      | 1 +
 indicators/mass.cc     | 1 +
 indicators/mfi.cc      | 5 +++++
 indicators/stoch.cc    | 5 +++++
 indicators/stochrsi.cc | 1 +
 indicators/ultosc.cc   | 5 +++++
 utils/buffer.c         | 1 +
 11 files changed, 27 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index f4ff16f..4508536 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..e30c2e5 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) { return TI_OUT_OF_MEMORY; }
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..ecc2cb0 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 30588dd..1133716 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL val = high[0]-low[0];
     ti_buffer_qpush(lag, val);
diff --git a/indicators/hma.cc b/indicators/hma.cc
index d0764b1..cbda406 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) { return TI_OUT_OF_MEMORY; }
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..8f59037 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..100c937 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index ad5be8f..3ac8a30 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..8589e68 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) { return 0; }
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From d73fcf1245b90557087e71195c3c3bd44f358772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 047/100] fix: codegen: stub frees the stream as its own type
 when out of memory

---
 codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.py b/codegen.py
index 39efcd4..d4a9eaa 100644
--- a/codegen.py
+++ b/codegen.py
@@ -326,7 +326,7 @@ for indicator in indicators.items():
         '    try {',
         '        #error "don\'t forget to initialize ringbuffers and any other storage"',
         '    } catch (std::bad_alloc& e) {',
-        '        delete *stream;',
+        '        delete ptr;',
         '        return TI_OUT_OF_MEMORY;',
         '    }',
     ]) + [
-- 
2.43.0


From d28a7181ac971f8c754488ae9128a2f7b62a6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 048/100] fix: ahma: report out of memory

---
 indicators/ahma.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..be34bf3 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From b72307a1bc4808ae27f8aa1434d1ba00b59856da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 049/100] fix: arsi: report out of memory

---
 indicators/arsi.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index 05d2416..2c81d40 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -176,7 +176,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.cycpart = cycpart;
 
     // the smoothing reads three prices back however short the cycle part is
-    ptr->state.Price.resize(std::max<TI_REAL>(cycpart * 50 + 1, 4));
+    try {
+        ptr->state.Price.resize(std::max<TI_REAL>(cycpart * 50 + 1, 4));
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 39f681fda311d62349d3024822f76036f017f6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 050/100] fix: ce: report out of memory

---
 indicators/ce.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 026b499..682f67f 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -130,14 +130,17 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
 
     TI_REAL *atr = (TI_REAL*)calloc(1, (size - ti_atr_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-    ti_atr(size, inputs, &period, &atr);
     TI_REAL *max = (TI_REAL*)calloc(1, (size - ti_max_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-	ti_max(size, &high, &period, &max);
     TI_REAL *min = (TI_REAL*)calloc(1, (size - ti_min_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-	ti_min(size, &low, &period, &min);
+    if (!atr || !max || !min) {
+        free(atr);
+        free(max);
+        free(min);
+        return TI_OUT_OF_MEMORY;
+    }
+    ti_atr(size, inputs, &period, &atr);
+    ti_max(size, &high, &period, &max);
+    ti_min(size, &low, &period, &min);
 
 
     for (int i = 0; i < size - ti_ce_start(options); ++i) {
@@ -182,7 +185,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From e7255be3d098d722ccd712cef8a346b6ff92d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 051/100] fix: cmi: report out of memory

---
 indicators/cmi.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index b4de3f7..f3c3920 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -18,7 +18,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -89,6 +89,8 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -101,8 +103,13 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
-    TI_REAL *tr = new TI_REAL[size];
-    TI_REAL *sum = new TI_REAL[size-(int)period+1];
+    TI_REAL *tr = new(std::nothrow) TI_REAL[size];
+    TI_REAL *sum = new(std::nothrow) TI_REAL[size-(int)period+1];
+    if (!tr || !sum) {
+        delete[] tr;
+        delete[] sum;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_tr(size, inputs, NULL, &tr);
     ti_sum(size, &tr, &period, &sum);
@@ -156,8 +163,13 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 40c2330c2939ce2742ef62bc3541dc980481b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 052/100] fix: copp: report out of memory

---
 indicators/copp.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index d8b9017..e26e765 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -94,6 +94,12 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *roc_long = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
 
     TI_REAL *interm = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
+    if (!roc_short || !roc_long || !interm) {
+        free(roc_short);
+        free(roc_long);
+        free(interm);
+        return TI_OUT_OF_MEMORY;
+    }
 
     // int wma_len = roc_long_len-ti_wma_start(&wma_period);
     // TI_REAL *wma = malloc(sizeof(TI_REAL[wma_len]));
-- 
2.43.0


From e1f5d029502f9e7b7d278b25a606efbb141302f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 053/100] fix: dwma: report out of memory

---
 indicators/dwma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index f0534ae..462dba7 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -75,7 +75,7 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 }
 
 DONTOPTIMIZE
-int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     TI_REAL *dwma = outputs[0];
@@ -91,6 +91,8 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_wma(size-ti_wma_start(options), arr, options, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_dwma_stream : ti_stream {
-- 
2.43.0


From 83218f27b5539a88c9c037396f0e6b042964a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 054/100] fix: edcf: report out of memory

---
 indicators/edcf.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..ad8e82b 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
@@ -79,7 +81,7 @@ struct ti_edcf_stream : ti_stream {
     } constants;
 };
 
-int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     TI_REAL length = options[0];
 
@@ -94,17 +96,24 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -143,4 +152,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 912f68bd9a1fcbbf92efc5bca2aa213ca7b76074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 055/100] fix: ehma: report out of memory

---
 indicators/ehma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 55ec77d..aef9300 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -53,7 +53,7 @@ int ti_ehma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *ehma = outputs[0];
@@ -85,6 +85,8 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     ema(subtr.data(), n05, ehma);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ehma_stream : ti_stream {
-- 
2.43.0


From 537915da0b23604ae8b6ad2eefb602f585acebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 056/100] fix: emsd: report out of memory

---
 indicators/emsd.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 7f2ec42..de62ce8 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
-- 
2.43.0


From 4e98b49385cc5928c12ee8432d90f457049b1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 057/100] fix: er: report out of memory

---
 indicators/er.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..ba48074 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From e5d3ed2806169d2c859e5298cf4474e3ed346375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 058/100] fix: evwma: report out of memory

---
 indicators/evwma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index 578bc86..c104233 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 73c4ae24788dc0880a1d1608f5c59b4d0061af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 059/100] fix: frama: report out of memory

---
 indicators/frama.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 3aa6d83..34cfd61 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -136,7 +136,7 @@ struct ti_frama_stream : ti_stream {
     } constants;
 };
 
-int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const int period = options[0];
     TI_REAL average_period = options[1];
 
@@ -157,13 +157,15 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.w = log(2.0 / (1.0 + average_period));
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -327,4 +329,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From cd01189d9817be8dc6ab04b69873e1f1e8d7949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 060/100] fix: hf: report out of memory

---
 indicators/hf.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/indicators/hf.cc b/indicators/hf.cc
index da7b411..3b8b598 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -22,7 +22,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -59,9 +59,11 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -96,6 +98,8 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hf_stream : ti_stream {
@@ -133,8 +137,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
@@ -143,7 +152,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -184,4 +193,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 0a7e192f2211bdb35773f049ba434e814cecb2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 061/100] fix: hfema: report out of memory

---
 indicators/hfema.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index 5512580..000944b 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -88,11 +88,15 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *ema = new TI_REAL[size];
+    TI_REAL *ema = new(std::nothrow) TI_REAL[size];
+    TI_REAL *data = new(std::nothrow) TI_REAL[2*k+1];
+    if (!ema || !data) {
+        delete[] ema;
+        delete[] data;
+        return TI_OUT_OF_MEMORY;
+    }
     ti_ema(size, &series, options, &ema);
 
-    TI_REAL *data = new TI_REAL[2*k+1];
-
     for (int i = 2*k; i < size; ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = ema[i-2*(int)k+j];
@@ -160,7 +164,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
@@ -171,7 +175,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -217,4 +221,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From b38dd6e7289f8ca00303a237831982c9369b862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 062/100] fix: hfsma: report out of memory

---
 indicators/hfsma.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 920f182..1a7ac3c 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -84,11 +84,15 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *sma = new TI_REAL[size];
+    TI_REAL *sma = new(std::nothrow) TI_REAL[size];
+    TI_REAL *data = new(std::nothrow) TI_REAL[2*(int)k+1];
+    if (!sma || !data) {
+        delete[] sma;
+        delete[] data;
+        return TI_OUT_OF_MEMORY;
+    }
     ti_sma(size, &series, options, &sma);
 
-    TI_REAL *data = new TI_REAL[2*(int)k+1];
-
     for (int i = 2*k; i < size - ti_sma_start(options); ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = sma[i-2*(int)k+j];
@@ -171,7 +175,7 @@ void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -223,4 +227,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 6c34a9d0465110dee5c2c9b2ff43788e4d8276ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 063/100] fix: ichi: report out of memory

---
 indicators/ichi.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..5d0b4f7 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -197,12 +197,21 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         return TI_INVALID_OPTION;
     }
 
-    TI_REAL *hh9 = new TI_REAL[size];
-    TI_REAL *ll9 = new TI_REAL[size];
-    TI_REAL *hh26 = new TI_REAL[size];
-    TI_REAL *ll26 = new TI_REAL[size];
-    TI_REAL *hh52 = new TI_REAL[size];
-    TI_REAL *ll52 = new TI_REAL[size];
+    TI_REAL *hh9 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll9 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *hh26 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll26 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *hh52 = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ll52 = new(std::nothrow) TI_REAL[size];
+    if (!hh9 || !ll9 || !hh26 || !ll26 || !hh52 || !ll52) {
+        delete[] hh9;
+        delete[] ll9;
+        delete[] hh26;
+        delete[] ll26;
+        delete[] hh52;
+        delete[] ll52;
+        return TI_OUT_OF_MEMORY;
+    }
 
     const TI_REAL numbers[] = {(TI_REAL)period9, (TI_REAL)period26, (TI_REAL)period52};
 
@@ -304,7 +313,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From b560b5c09069dfb483769cadd2c183f868964f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 064/100] fix: idwma: report out of memory

---
 indicators/idwma.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 3fd44f2..5fdb535 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -108,10 +110,15 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
 
-    ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
+        ptr->constants.denom = 0;
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
-- 
2.43.0


From b1e28f5416486725c3432fcd56900dda7ac73cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 065/100] fix: kst: report out of memory

---
 indicators/kst.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 7211fe8..628d6e0 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -136,9 +136,16 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         size_ema[i] = size_roc[i] - ti_ema_start(ma + i);
 
         roc_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_roc[i]);
-        ti_roc(size, &series, roc + i, roc_mem + i);
-
         ema_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_ema[i]);
+        if (!roc_mem[i] || !ema_mem[i]) {
+            for (int j = 0; j <= i; ++j) {
+                free(roc_mem[j]);
+                free(ema_mem[j]);
+            }
+            return TI_OUT_OF_MEMORY;
+        }
+
+        ti_roc(size, &series, roc + i, roc_mem + i);
         ti_ema(size_roc[i], roc_mem + i, ma + i, ema_mem + i);
     }
 
-- 
2.43.0


From c459588f453f56dfbd4f4e0d71e0dcf93da5d3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 066/100] fix: lma: report out of memory

---
 indicators/lma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/lma.cc b/indicators/lma.cc
index 3325aee..0ec1417 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -53,7 +53,7 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     TI_REAL *lma = outputs[0];
@@ -78,6 +78,8 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_lma_stream : ti_stream {
-- 
2.43.0


From 8082243ce0cd9dcc47c01eca5bd7c5818ef3cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 067/100] fix: mama: report out of memory

---
 indicators/mama.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/indicators/mama.cc b/indicators/mama.cc
index 0a054cc..6b12cd0 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -119,6 +119,25 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *phase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *deltaphase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *alpha = (TI_REAL*)calloc(size, sizeof(TI_REAL));
+    if (!smooth || !detrender || !I1 || !Q1 || !jI || !jQ || !I2 || !Q2
+        || !Re || !Im || !period || !smoothperiod || !phase || !deltaphase || !alpha) {
+        free(smooth);
+        free(detrender);
+        free(I1);
+        free(Q1);
+        free(jI);
+        free(jQ);
+        free(I2);
+        free(Q2);
+        free(Re);
+        free(Im);
+        free(period);
+        free(smoothperiod);
+        free(phase);
+        free(deltaphase);
+        free(alpha);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 6; i < size; ++i) {
         smooth[i] = (4 * price[i] + 3 * price[i-1] + 2 * price[i-2] + price[i-3]) / 10.;
-- 
2.43.0


From ad1c84568461d32d6094aa10eda39ddf07e16db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 068/100] fix: mesastoch: report out of memory

---
 indicators/mesastoch.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 3a4029f..b6272be 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -101,7 +101,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int period = options[0];
     int max_cycle_considered = options[1];
@@ -167,6 +167,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mesastoch_stream : ti_stream {
-- 
2.43.0


From 6a9a5a1693b2bffdcf0702ea4ce0e51cf66907b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 069/100] fix: mhlma: report out of memory

---
 indicators/mhlma.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 6532a48..79278ce 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -19,7 +19,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -125,6 +125,8 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -136,7 +138,13 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
 
     if (period < 1 || ma_period < 1) { return TI_INVALID_OPTION; }
 
-    TI_REAL *mhl = new TI_REAL[size];
+    TI_REAL *mhl = new(std::nothrow) TI_REAL[size];
+    TI_REAL *ema_buf = new(std::nothrow) TI_REAL[size];
+    if (!mhl || !ema_buf) {
+        delete[] mhl;
+        delete[] ema_buf;
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < size; ++i) {
         TI_REAL hh = *std::max_element(std::max<TI_REAL const*>(series+i-(int)period+1, series), series+i+1);
@@ -144,8 +152,6 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhl[i] = (hh + ll) / 2.;
     }
 
-    TI_REAL *ema_buf = new TI_REAL[size];
-
     ti_sma(size, &mhl, &ma_period, &mhlsma);
 
     ti_ema(size, &mhl, &ma_period, &ema_buf);
@@ -200,8 +206,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 86521f16c6c52c63a5f6aad0dc49c9a75a317646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 070/100] fix: pbands: report out of memory

---
 indicators/pbands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 123f921..8b5635f 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -84,6 +84,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, options, &b);
 
-- 
2.43.0


From 5b446a75b6d3e47c7385afe0f22f38d0d1b53c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 071/100] fix: posc: report out of memory

---
 indicators/posc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index a39cbb2..b9c2068 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -104,6 +104,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, options, &b);
 
@@ -159,7 +160,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 8782dd3a9635b0fd9366225a95232b78c91b9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 072/100] fix: pwma: report out of memory

---
 indicators/pwma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From b4e4e9b1bdd4406facfa9b47b9fabecd7601d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 073/100] fix: rmf: report out of memory

---
 indicators/rmf.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 6b2eedb..c95db53 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -23,7 +23,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -65,6 +65,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
@@ -85,7 +87,7 @@ struct ti_rmf_stream : ti_stream {
     } constants;
 };
 
-int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
@@ -106,13 +108,15 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -152,4 +156,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 25c7028f78c388be59ea56b5f6a9a23fa483ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 074/100] fix: rmi: report out of memory

---
 indicators/rmi.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index c262aa1..09e595c 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -64,6 +64,11 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     int start = ti_rmi_start(options);
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
+    if (!gains || !losses) {
+        free(gains);
+        free(losses);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = lookback_period; i < size; ++i) {
         gains[i-start] = MAX(0, series[i] - series[i-(int)lookback_period]);
-- 
2.43.0


From 63b24e40d39d4399acbbef99bd95a66f929cf1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 075/100] fix: rvi: report out of memory

---
 indicators/rvi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index e457514..b62be5b 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 264898616e95bb3f57d6f3a0ce287e4a73d09e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 076/100] fix: shmma: report out of memory

---
 indicators/shmma.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index f9a66a6..ff00997 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 6d66af7e79d43667452f8e7037a2b37799c35c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 077/100] fix: smi: report out of memory

---
 indicators/smi.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index e11f361..038d745 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -129,12 +129,19 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *min = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!max || !min || !num || !den) {
+        free(max);
+        free(min);
+        free(num);
+        free(den);
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_max(size, &high, &q_period, &max);
     ti_min(size, &low, &q_period, &min);
 
-    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
 
     for (int i = 0; i < outsize; ++i) {
         num[i] = close[size-outsize + i] - 0.5 * (max[i] + min[i]);
-- 
2.43.0


From 96db354a908cf3d3f99b2eb735da9c93026a38a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 078/100] fix: swma: report out of memory

---
 indicators/swma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 95e0a11d2be5757876e8b67fd6acc5bf8f743837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 079/100] fix: t3: report out of memory

---
 indicators/t3.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/t3.cc b/indicators/t3.cc
index b113b7c..27b6eee 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -76,7 +76,7 @@ int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL v = options[1];
@@ -113,6 +113,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     std::memcpy(t3, output.data(), sizeof(TI_REAL) * size);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_t3_stream : ti_stream {
-- 
2.43.0


From c606881a7ef67ca4eca1d1bcd873782377a6a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 080/100] fix: tsi: report out of memory

---
 indicators/tsi.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index 0997500..7192c7f 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -71,9 +71,14 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!momentum || !absmomentum) {
+        free(momentum);
+        free(absmomentum);
+        return TI_OUT_OF_MEMORY;
+    }
     ti_mom(size, &series, &_one, &momentum);
 
-    TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     ti_abs(outsize, &momentum, 0, &absmomentum);
 
     ti_ema(outsize, &momentum, &y_period, &momentum);
-- 
2.43.0


From 45aab0001eb0f9929c106fe4132fc63f1638a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 081/100] fix: vi: report out of memory

---
 indicators/vi.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 2177163..4f9cc12 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -54,7 +54,7 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -101,6 +101,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
     
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_vi_stream : ti_stream {
@@ -124,7 +126,7 @@ struct ti_vi_stream : ti_stream {
     } constants;
 };
 
-int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
     if (period < 1) return TI_INVALID_OPTION;
@@ -139,13 +141,15 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -220,5 +224,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 0aa338aad69d0c73f2465d8543a34efe66fb00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:54 +0000
Subject: [PATCH 082/100] fix: vwap: report out of memory

---
 indicators/vwap.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 7367759..a2cf310 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -63,6 +63,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int outsize = size - ti_typprice_start(options);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!typprice) { return TI_OUT_OF_MEMORY; }
     ti_typprice(size, inputs, 0, &typprice);
     
     TI_REAL sum = 0;
-- 
2.43.0


From e7588db488c369677310cfd77518269e067c72bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:33 +0000
Subject: [PATCH 083/100] fix: vwap: reference yields 0 like the plain variant
 when no volume was traded

---
 indicators/vwap.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index a2cf310..c495c38 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -75,7 +75,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         vsum += volume[i];
     }
 
-    *vwap++ = sum / vsum;
+    *vwap++ = sum ? sum / vsum : 0;
 
     for (i = period; i < size; ++i) {
         sum += typprice[i] * volume[i];
@@ -83,7 +83,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         vsum += volume[i];
         vsum -= volume[i-(int)period];
 
-        *vwap++ = sum / vsum;
+        *vwap++ = sum ? sum / vsum : 0;
     }
 
     free(typprice);
-- 
2.43.0


From dea4bbc08c134b4eff77dd13e5e61a6cd83838d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 084/100] fix: mfi, ultosc: no residue of earlier bars decides
 the value when a window of ti_buffer is all zeros

---
 utils/buffer.c | 1 +
 utils/buffer.h | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/buffer.c b/utils/buffer.c
index 8589e68..12a69a0 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -17,6 +17,7 @@ ti_buffer *ti_buffer_new(int size) {
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
+    ret->zeros = 0;
     ret->sum = 0;
     return ret;
 }
diff --git a/utils/buffer.h b/utils/buffer.h
index 642f5ce..077ee36 100644
--- a/utils/buffer.h
+++ b/utils/buffer.h
@@ -10,7 +10,7 @@
 
 
 typedef struct {
-    int size, pushes, index;
+    int size, pushes, index, zeros;
     TI_REAL sum;
     TI_REAL vals[1];
 } ti_buffer;
@@ -28,7 +28,8 @@ extern void ti_buffer_free(ti_buffer *buffer);
 #endif
 
 
-/* Pushes a new value, plus updates sum. */
+/* Pushes a new value, plus updates sum.
+ * Once all the values are zeros, so is the sum: no rounding is left behind. */
 #define ti_buffer_push(BUFFER, VAL) \
 do { \
     if ((BUFFER)->pushes >= (BUFFER)->size) { \
@@ -36,6 +37,8 @@ do { \
     } \
 \
     (BUFFER)->sum += (VAL); \
+    if (VAL) { (BUFFER)->zeros = 0; } else if ((BUFFER)->zeros < (BUFFER)->size) { (BUFFER)->zeros += 1; } \
+    if ((BUFFER)->zeros == (BUFFER)->size) { (BUFFER)->sum = 0; } \
     (BUFFER)->vals[(BUFFER)->index] = (VAL); \
     (BUFFER)->pushes += 1; \
     (BUFFER)->index = ((BUFFER)->index + 1); \
-- 
2.43.0


From ba6f2104ce45c23bdee33132eb7f53c317e23f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 085/100] fix: ultosc: no residue of earlier bars decides the
 value when the market stands still

---
 indicators/ultosc.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 3ac8a30..d6dc48f 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -42,6 +42,7 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
+    int still = 0; /* Bars in a row without any range. */
 
     int i;
     for (i = 1; i < size; ++i) {
@@ -73,6 +74,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
             }
         }
 
+        /* Rounding left over from earlier bars must not be divided by itself. */
+        still = r ? 0 : still + 1;
+        if (still >= short_period) bp_short_sum = r_short_sum = 0;
+        if (still >= medium_period) bp_medium_sum = r_medium_sum = 0;
+
         ti_buffer_push(bp_buf, bp);
         ti_buffer_push(r_buf, r);
 
-- 
2.43.0


From 513ee0cc27a10049d1adbbe7544a2d492c94e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 086/100] fix: cmo: no residue of earlier bars decides the
 value when the price stands still

---
 indicators/cmo.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/cmo.cc b/indicators/cmo.cc
index b2642f6..b83a444 100644
--- a/indicators/cmo.cc
+++ b/indicators/cmo.cc
@@ -26,16 +26,22 @@ int ti_cmo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if (size <= ti_cmo_start(options)) return TI_OKAY;
 
     TI_REAL up_sum = 0, down_sum = 0;
+    int still = 0; /* Bars in a row without any change. */
 
     int i = 1;
     for (; i < period && i < size; ++i) {
+        still = input[i] == input[i-1] ? still + 1 : 0;
         up_sum += UPWARD(i);
         down_sum += DOWNWARD(i);
     }
     for (; i < size; ++i) {
+        still = input[i] == input[i-1] ? still + 1 : 0;
         up_sum += UPWARD(i);
         down_sum += DOWNWARD(i);
 
+        /* Rounding left over from earlier bars must not be divided by itself. */
+        if (still >= period) up_sum = down_sum = 0;
+
         *output++ = up_sum + down_sum ? 100 * (up_sum - down_sum) / (up_sum + down_sum) : 0;
 
         up_sum -= UPWARD(i-period+1);
-- 
2.43.0


From 6f1217a71ce04df40bb92d2382df79f38e12d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 087/100] fix: vosc: no residue of earlier bars decides the
 value when no volume is left in the window

---
 indicators/vosc.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indicators/vosc.cc b/indicators/vosc.cc
index 822dc7e..d1871d1 100644
--- a/indicators/vosc.cc
+++ b/indicators/vosc.cc
@@ -29,6 +29,7 @@ int ti_vosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     TI_REAL short_sum = 0;
     TI_REAL long_sum = 0;
+    int quiet = 0; /* Bars in a row without any volume. */
 
     int i;
     for (i = 0; i < long_period; ++i) {
@@ -36,6 +37,7 @@ int ti_vosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
             short_sum += input[i];
         }
         long_sum += input[i];
+        quiet = input[i] ? 0 : quiet + 1;
     }
 
     {
@@ -51,6 +53,11 @@ int ti_vosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         long_sum += input[i];
         long_sum -= input[i-long_period];
 
+        /* Rounding left over from earlier bars must not be divided by itself. */
+        quiet = input[i] ? 0 : quiet + 1;
+        if (quiet >= short_period) short_sum = 0;
+        if (quiet >= long_period) long_sum = 0;
+
         const TI_REAL savg = short_sum * short_div;
         const TI_REAL lavg = long_sum * long_div;
         *output++ = (savg - lavg) ? 100.0 * (savg - lavg) / lavg : 0;
-- 
2.43.0


From 05bcc521dddd60554b9235e27d3f506db85a0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:19 +0000
Subject: [PATCH 088/100] fix: vwma: no residue of earlier bars decides the
 value when no volume is left in the window

---
 indicators/vwma.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/vwma.cc b/indicators/vwma.cc
index 43b5b63..176937b 100644
--- a/indicators/vwma.cc
+++ b/indicators/vwma.cc
@@ -26,11 +26,13 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     TI_REAL sum = 0;
     TI_REAL vsum = 0;
+    int quiet = 0; /* Bars in a row without any volume. */
 
     int i;
     for (i = 0; i < period; ++i) {
         sum += input[i] * volume[i];
         vsum += volume[i];
+        quiet = volume[i] ? 0 : quiet + 1;
     }
 
     *output++ = sum ? sum / vsum : 0;
@@ -41,6 +43,10 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         vsum += volume[i];
         vsum -= volume[i-period];
 
+        /* Rounding left over from earlier bars must not be divided by itself. */
+        quiet = volume[i] ? 0 : quiet + 1;
+        if (quiet >= period) sum = vsum = 0;
+
         *output++ = sum ? sum / vsum : 0;
     }
 
-- 
2.43.0


From 8cb61a5737ae2acaa0e1535da2dbec9d451f9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:07 +0000
Subject: [PATCH 089/100] fix: vwap: no residue of earlier bars decides the
 value when no volume is left in the window

---
 indicators/vwap.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index c495c38..d8ad96d 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -27,11 +27,13 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     TI_REAL num = 0;
     TI_REAL den = 0;
+    int quiet = 0; // bars in a row without any volume
 
     int i = 0;
     for (; i < size && progress < 1; ++i, ++progress) {
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
+        quiet = volume[i] ? 0 : quiet + 1;
     }
     if (i > 0 && progress == 1) {
         *vwap++ = num ? num / den : 0;
@@ -40,6 +42,9 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         num += (high[i] + low[i] + close[i]) / 3. * volume[i]
             - (high[i-(int)period] + low[i-(int)period] + close[i-(int)period]) / 3. * volume[i-(int)period];
         den += volume[i] - volume[i-(int)period];
+        // rounding left over from earlier bars must not be divided by itself
+        quiet = volume[i] ? 0 : quiet + 1;
+        if (quiet >= period) { num = den = 0; }
 
         *vwap++ = num ? num / den : 0;
     }
@@ -68,11 +73,13 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     
     TI_REAL sum = 0;
     TI_REAL vsum = 0;
+    int quiet = 0; // bars in a row without any volume
 
     int i;
     for (i = 0; i < size && i < period; ++i) {
         sum += typprice[i] * volume[i];
         vsum += volume[i];
+        quiet = volume[i] ? 0 : quiet + 1;
     }
 
     *vwap++ = sum ? sum / vsum : 0;
@@ -82,6 +89,9 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         sum -= typprice[i-(int)period] * volume[i-(int)period];
         vsum += volume[i];
         vsum -= volume[i-(int)period];
+        // rounding left over from earlier bars must not be divided by itself
+        quiet = volume[i] ? 0 : quiet + 1;
+        if (quiet >= period) { sum = vsum = 0; }
 
         *vwap++ = sum ? sum / vsum : 0;
     }
@@ -99,6 +109,7 @@ struct ti_vwap_stream : ti_stream {
     struct {
         TI_REAL num;
         TI_REAL den;
+        int quiet;
 
         ringbuf<0> price_high;
         ringbuf<0> price_low;
@@ -126,6 +137,7 @@ int ti_vwap_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->state.num = 0;
     ptr->state.den = 0;
+    ptr->state.quiet = 0;
 
     try {
         ptr->state.price_high.resize(period + 1);
@@ -159,6 +171,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
     TI_REAL num = ptr->state.num;
     TI_REAL den = ptr->state.den;
+    int quiet = ptr->state.quiet; // bars in a row without any volume, up to period
 
     auto &price_high = ptr->state.price_high;
     auto &price_low = ptr->state.price_low;
@@ -174,6 +187,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
+        quiet = volume[i] ? 0 : quiet + (quiet < period);
     }
     for (; i < size; ++i, ++progress, step(price_high, price_low, price_close, price_volume)) {
         price_high = high[i];
@@ -183,6 +197,9 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
+        // rounding left over from earlier bars must not be divided by itself
+        quiet = volume[i] ? 0 : quiet + (quiet < period);
+        if (quiet == period) { num = den = 0; }
 
         *vwap++ = num ? num / den : 0;
 
@@ -194,6 +211,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
     ptr->state.num = num;
     ptr->state.den = den;
+    ptr->state.quiet = quiet;
 
     return TI_OKAY;
 }
-- 
2.43.0


From 6262dd5a1be47a6e1efa9e17e60038ef8693b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:30 +0000
Subject: [PATCH 090/100] fix: python binding: an input shorter than the start
 gives an empty (or all-NaN) result

---
 bindings/python/tindicators/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index c3d2c57..9f14321 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -103,7 +103,7 @@ class _Indicator:
             options[idx] = option
 
         insize = len(inputs_lst[0])
-        start_amount = self.__start(options)
+        start_amount = min(max(self.__start(options), 0), insize)
         outsize = insize - start_amount
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
-- 
2.43.0


From 14262d84e7f0629a0ff4e04bf1c9f9e099f80a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:30 +0000
Subject: [PATCH 091/100] fix: python binding: options printed with an exponent

---
 bindings/python/tindicators/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index 9f14321..80d6a2f 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -139,7 +139,7 @@ class _Indicator:
         return result if len(self.info.outputs) > 1 else result[0]
 
     def __construct_elaborated_name(self, name, options_lst):
-        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm') for opt in [''] + options_lst)
+        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm').replace('+', '') for opt in [''] + options_lst)
 
     def __parse(self, args, kwargs, offset, names):
         size = len(names)
-- 
2.43.0


From b2b31225a0b4a1f88d4aac71b8109d9d3d5af257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:57 +0000
Subject: [PATCH 092/100] fix: codegen: a new indicator neither fails nor
 inherits templates of the one before

---
 codegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.py b/codegen.py
index d4a9eaa..3d43a0d 100644
--- a/codegen.py
+++ b/codegen.py
@@ -359,6 +359,7 @@ for indicator in indicators.items():
     ]
 
     path = file_path_c if args.old else file_path_cc
+    tbd = []
     if not os.path.exists(file_path_c) and not os.path.exists(file_path_cc):
         with open(path, 'w') as f:
             print(f'codegen.py: indicators/{os.path.basename(path)}')
-- 
2.43.0


From f10e5948b7e3432d84671e53b17dbf4c7e231b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:28 +0000
Subject: [PATCH 093/100] fix: ringbuf<2> find_max and find_min look only as
 far back as asked, with the order asked for

---
 utils/ringbuf.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/ringbuf.hh b/utils/ringbuf.hh
index 955eddb..bd067e2 100644
--- a/utils/ringbuf.hh
+++ b/utils/ringbuf.hh
@@ -105,12 +105,14 @@ struct ringbuf<2> {
 
     template<class Cmp = std::less<TI_REAL>>
     TI_REAL* find_max(int period) {
-        if (a1 >= a2) { return &a1; }
-        else { return &a2; }
+        assert(period <= 2);
+        assert(period > 0);
+
+        Cmp cmp;
+        return period == 2 && cmp(a1, a2) ? &a2 : &a1;
     }
     TI_REAL* find_min(int period) {
-        if (a1 <= a2) { return &a1; }
-        else { return &a2; }
+        return find_max<std::greater<TI_REAL>>(period);
     }
 
     TI_REAL* phbegin() { return &a1; }
-- 
2.43.0


From 8221c1b5c616da188fff96fb4d6e8548c77b826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 094/100] fix: dwma stream weighs by the whole period, as the
 batch function does

---
 indicators/dwma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 462dba7..d3712d2 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -118,7 +118,7 @@ struct ti_dwma_stream : ti_stream {
 };
 
 int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From bfa66ba3ccc37e39624d279c1484fc2e60e2a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 095/100] fix: pfe stream smooths with the whole period, as the
 batch function does

---
 indicators/pfe.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 85c22b5..8278d3a 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -122,8 +122,8 @@ struct ti_pfe_stream : ti_stream {
 };
 
 int ti_pfe_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
-    const TI_REAL ema_period = options[1];
+    const int period = options[0];
+    const int ema_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From b4c77e09fba899ffbe246b4f0269a3cf8de0b7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 096/100] fix: rvi stream fits its line over whole periods, as
 the batch function does

---
 indicators/rvi.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index b62be5b..04e311c 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -86,8 +86,8 @@ struct ti_rvi_stream : ti_stream {
 };
 
 int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL ema_period = options[0];
-    const TI_REAL stddev_period = options[1];
+    const int ema_period = options[0];
+    const int stddev_period = options[1];
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From 10a1514d815313de63e389dd31bdf16ac012fd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 097/100] fix: ahma reference uses the whole period, as the
 plain variant does

---
 indicators/ahma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index be34bf3..65ca22b 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -35,7 +35,7 @@ int ti_ahma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_ahma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *ahma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -45,7 +45,7 @@ DONTOPTIMIZE int ti_ahma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         ahma[i] = series[i];
     }
     for (; i < size; ++i) {
-        ahma[i] = ahma[i-1] + (series[i] - (ahma[i-1] + ahma[i-(int)period]) / 2) / period;
+        ahma[i] = ahma[i-1] + (series[i] - (ahma[i-1] + ahma[i-period]) / 2) / period;
     }
 
     return TI_OKAY;
-- 
2.43.0


From 2c2c01d117815f909f2b1971bff3f2e5027d4c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 098/100] fix: cmi reference uses the whole period, as the
 plain variant does

---
 indicators/cmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index f3c3920..6586cb3 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -97,7 +97,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
-    const TI_REAL period = options[0];
+    const TI_REAL period = (int)options[0];
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-- 
2.43.0


From 34b4f935caec606e5d72d4397050ec9e6637b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 099/100] fix: edcf takes a whole length; a fraction made it
 read past its window

---
 indicators/edcf.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index ad8e82b..ee4aac0 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -14,14 +14,14 @@
 
 
 int ti_edcf_start(TI_REAL const *options) {
-    TI_REAL length = options[0];
+    const int length = options[0];
 
     return 2*length-1;
 }
 
 int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    TI_REAL length = options[0];
+    const int length = options[0];
     TI_REAL *edcf = outputs[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
@@ -67,7 +67,7 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 struct ti_edcf_stream : ti_stream {
 
     struct {
-        TI_REAL length;
+        int length;
     } options;
 
     struct {
@@ -82,8 +82,7 @@ struct ti_edcf_stream : ti_stream {
 };
 
 int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
-    TI_REAL lookback = options[0];
-    TI_REAL length = options[0];
+    const int length = options[0];
 
     if (length < 1) { return TI_INVALID_OPTION; }
 
@@ -118,7 +117,7 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
     int progress = ptr->progress;
-    TI_REAL length = ptr->options.length;
+    const int length = ptr->options.length;
 
     auto &price = ptr->state.price;
     auto &coef = ptr->state.coef;
-- 
2.43.0


From 82cb295e1e67917301ab6fa879b6282d2144fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:34 +0000
Subject: [PATCH 100/100] fix: vidya does not divide rounding residues when the
 price stands still

---
 indicators/vidya.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 7eb6a34..06d8af0 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -39,8 +39,11 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum = 0;
     TI_REAL long_sum2 = 0;
 
+    int still = 0; /* Bars in a row without any change. */
+
     int i;
     for (i = 0; i < long_period && i < size; ++i) {
+        still = i && input[i] == input[i-1] ? still + 1 : 0;
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
@@ -57,6 +60,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
         TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
         TI_REAL k = long_stddev > 0.0 ? short_stddev / long_stddev : 0;
+        if (still >= short_period - 1) k = 0; /* The short window does not move: its deviation is zero, not what rounding left. */
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -65,6 +69,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     for (i = long_period; i < size; ++i) {
+        still = input[i] == input[i-1] ? still + 1 : 0;
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
@@ -81,6 +86,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
             TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
             TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
             TI_REAL k = long_stddev > 0.0 ? short_stddev / long_stddev : 0;
+            if (still >= short_period - 1) k = 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0

