From b0a8da75645c3f51510660e1016325fed7c8a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 01/24] fix: density based median starts each evaluation from
 an empty running sum

A second extraction after more samples continued from the sum of the first one.
---
 include/boost/accumulators/statistics/median.hpp          | 1 +
 include/boost/accumulators/statistics/weighted_median.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4d4118d..9a056a1 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -96,6 +96,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = 0;
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 22224a8..dbf1f66 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -93,6 +93,7 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
+                this->sum = 0;
                 while (this->sum < 0.5 * cnt)
                 {
                     this->sum += it->second * cnt;
-- 
2.43.0


From ecdb7aabb623de5b62ca16e989c70da134d63b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 02/24] fix: density based median does not read past the
 histogram when the median is in the overflow bin

---
 include/boost/accumulators/statistics/median.hpp          | 4 +++-
 include/boost/accumulators/statistics/weighted_median.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 9a056a1..000d494 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -104,7 +104,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * (1. - over);
+                // the overflow bin has no right edge
+                float_type right = (it + 1 == histogram.end()) ? it->first : (it + 1)->first;
+                this->median = it->first * over + right * (1. - over);
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index dbf1f66..e4e7a85 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -101,7 +101,9 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                // the overflow bin has no right edge
+                float_type right = (it + 1 == histogram.end()) ? it->first : (it + 1)->first;
+                this->median = it->first * over + right * (1. - over);
             }
 
             return this->median;
-- 
2.43.0


From 45903e6216e06692cf948aad8ab21197df2f6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 03/24] fix: cumulative distribution based median interpolates
 inside the bin that contains 0.5

It interpolated inside the bin to the right of it, and read past the last marker when
the last bin contained 0.5.
---
 include/boost/accumulators/statistics/median.hpp      | 11 +++++++++--
 .../boost/accumulators/statistics/weighted_median.hpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 000d494..ba964aa 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -171,8 +171,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index e4e7a85..ed456e8 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -168,8 +168,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
-- 
2.43.0


From a4be51fc6f99f661c7c823a6d0479b477a19b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:57 +0000
Subject: [PATCH 04/24] fix: peaks over threshold fit keeps its running sums
 intact when a result is extracted

The extraction replaced the sums by mean and variance, so samples pushed afterwards
produced a wrong fit.
---
 .../accumulators/statistics/peaks_over_threshold.hpp  | 11 ++++++-----
 .../statistics/weighted_peaks_over_threshold.hpp      | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index de73c65..289d8f1 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -164,15 +164,16 @@ namespace impl
 
                 std::size_t cnt = count(args);
 
-                this->mu_ = sign::value * numeric::fdiv(this->mu_, this->Nu_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->Nu_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                // mu_ and sigma2_ are running sums, later samples are added to them
+                float_type mu = sign::value * numeric::fdiv(this->mu_, this->Nu_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->Nu_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(cnt - this->Nu_, cnt);
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index f3dc327..7019097 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -92,15 +92,16 @@ namespace impl
             {
                 this->is_dirty_ = false;
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->w_sum_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                // mu_ and sigma2_ are running sums, later samples are added to them
+                float_type mu = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->w_sum_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(sum_of_weights(args) - this->w_sum_, sum_of_weights(args));
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
-- 
2.43.0


From 03d67506261d96246905f1ea0014c5aacbbde086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:57 +0000
Subject: [PATCH 05/24] fix: threshold probability based peaks over threshold
 fit starts each evaluation afresh

Sums of the previous evaluation leaked into the next one, the left tail flipped its
probability on every evaluation, and a failed evaluation was cached as (0, 0, 0).
---
 .../statistics/peaks_over_threshold.hpp            | 13 +++++++------
 .../statistics/weighted_peaks_over_threshold.hpp   | 14 +++++++-------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 289d8f1..133d0e9 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -247,8 +247,6 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 std::size_t cnt = count(args);
 
                 // the n'th cached sample provides an approximate threshold value u
@@ -282,6 +280,8 @@ namespace impl
                     float_type u = *(tail(args).begin() + n - 1) * sign::value;
 
                     // compute mean and variance of samples above/under threshold value u
+                    this->mu_ = 0;
+                    this->sigma2_ = 0;
                     for (std::size_t i = 0; i < n; ++i)
                     {
                         mu_ += *(tail(args).begin() + i);
@@ -292,15 +292,16 @@ namespace impl
                     this->sigma2_ = numeric::fdiv(this->sigma2_, n);
                     this->sigma2_ -= this->mu_ * this->mu_;
 
-                    if (is_same<LeftRight, left>::value)
-                        this->threshold_probability_ = 1. - this->threshold_probability_;
+                    float_type threshold_probability = ( is_same<LeftRight, left>::value )
+                      ? 1. - this->threshold_probability_ : this->threshold_probability_;
 
                     float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
                     float_type xi_hat = 0.5 * ( 1. - tmp );
                     float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                    this->is_dirty_ = false;
                 }
             }
 
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 7019097..4d23431 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -174,13 +174,13 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? this->threshold_probability_ : 1. - this->threshold_probability_ );
 
                 std::size_t n = 0;
                 Weight sum = Weight(0);
+                this->mu_ = 0;
+                this->sigma2_ = 0;
 
                 while (sum < threshold)
                 {
@@ -218,16 +218,16 @@ namespace impl
                 this->sigma2_ = numeric::fdiv(this->sigma2_, sum);
                 this->sigma2_ -= this->mu_ * this->mu_;
 
-                if (is_same<LeftRight, left>::value)
-                    this->threshold_probability_ = 1. - this->threshold_probability_;
+                float_type threshold_probability = ( is_same<LeftRight, left>::value )
+                  ? 1. - this->threshold_probability_ : this->threshold_probability_;
 
                 float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
                 float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
-
+                this->is_dirty_ = false;
             }
 
             return this->fit_parameters_;
-- 
2.43.0


From ee8ff181c04fd6f6a2602cbf2688cd74a9254cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:57 +0000
Subject: [PATCH 06/24] fix: coherent tail mean of the left tail subtracts
 ceil(n*alpha)/n as documented

---
 include/boost/accumulators/statistics/tail_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_mean.hpp b/include/boost/accumulators/statistics/tail_mean.hpp
index f56606d..50794b0 100644
--- a/include/boost/accumulators/statistics/tail_mean.hpp
+++ b/include/boost/accumulators/statistics/tail_mean.hpp
@@ -84,7 +84,7 @@ namespace impl
             return some_non_coherent_tail_mean(args)
                  + numeric::fdiv(quantile(args), n)
                  * (
-                     ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability]
+                     ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                      - numeric::fdiv(n, count(args))
                    );
         }
-- 
2.43.0


From 51d6adcf74551c9cb536beefd1fe7f6fe24ea6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 07/24] fix: tail quantile with a rank of zero does not read
 before the first cached sample

---
 include/boost/accumulators/statistics/tail_quantile.hpp        | 2 +-
 .../boost/accumulators/statistics/weighted_tail_quantile.hpp   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index ed1f6e6..bbc6598 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n < static_cast<std::size_t>(tail(args).size()))
+            if ( n > 0 && n < static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index b143457..451f7a5 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -81,7 +81,8 @@ namespace impl
             std::size_t n = 0;
             Weight sum = Weight(0);
 
-            while (sum < threshold)
+            // at least one sample is needed
+            while (n == 0 || sum < threshold)
             {
                 if (n < static_cast<std::size_t>(tail_weights(args).size()))
                 {
-- 
2.43.0


From b2c46ef90c7acecc2ee9d0b4ebed89c5a9e3bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 08/24] fix: threshold probability based peaks over threshold
 fit with a rank of zero does not read before the first cached sample

---
 include/boost/accumulators/statistics/peaks_over_threshold.hpp | 2 +-
 .../accumulators/statistics/weighted_peaks_over_threshold.hpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 133d0e9..2420b3c 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -257,7 +257,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n >= static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 4d23431..41d4f51 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -182,7 +182,8 @@ namespace impl
                 this->mu_ = 0;
                 this->sigma2_ = 0;
 
-                while (sum < threshold)
+                // at least one sample is needed
+                while (n == 0 || sum < threshold)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-- 
2.43.0


From 4f012f5c9010c530c8da41c9ab90bb78170aec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 09/24] fix: tail variate means of an empty tail do not read a
 variate that is not there

---
 include/boost/accumulators/statistics/tail_variate_means.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index efe9f7c..1842f5c 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -98,7 +98,7 @@ namespace impl
                 )
             );
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
 
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
-- 
2.43.0


From 961cbbbbaa801b58dc3614b075dcb45e7ecbd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:28 +0000
Subject: [PATCH 10/24] fix: weighted tail variate means terminate when the
 tail cache is too small for the requested probability

---
 .../statistics/weighted_tail_variate_means.hpp        | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index f096a93..c9dc478 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -123,6 +123,11 @@ namespace impl
             std::size_t n = 0;
             Weight sum = Weight(0);
 
+            std::size_t num_variates = tail_variate(args).empty() ? 0 : tail_variate(args).begin()->size();
+
+            this->tail_means_.clear();
+            this->tail_means_.resize(num_variates, Sample(0));
+
             while (sum < threshold)
             {
                 if (n < static_cast<std::size_t>(tail_weights(args).size()))
@@ -139,6 +144,7 @@ namespace impl
                           , this->tail_means_.end()
                           , std::numeric_limits<float_type>::quiet_NaN()
                         );
+                        return make_iterator_range(this->tail_means_);
                     }
                     else
                     {
@@ -149,11 +155,6 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
-
-            this->tail_means_.clear();
-            this->tail_means_.resize(num_variates, Sample(0));
-
             this->tail_means_ = std::inner_product(
                 tail_variate(args).begin()
               , tail_variate(args).begin() + n
-- 
2.43.0


From 0915ae49e4d04ff31744c9169136fa8ce2d55798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:24 +0000
Subject: [PATCH 11/24] fix: rolling window can be reloaded when its buffer has
 wrapped around

---
 .../boost/accumulators/statistics/rolling_window.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index a43ecdf..cc1bde7 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_ROLLING_WINDOW_HPP_EAN_26_12_2008
 #define BOOST_ACCUMULATORS_STATISTICS_ROLLING_WINDOW_HPP_EAN_26_12_2008
 
+#include <algorithm>
 #include <cstddef>
 #include <boost/version.hpp>
 #include <boost/assert.hpp>
@@ -32,10 +33,11 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    const typename circular_buffer<T>::const_array_range one = b.array_one();
-    const typename circular_buffer<T>::const_array_range two = b.array_two();
-    ar.save_binary(one.first, one.second*sizeof(T));
-    ar.save_binary(two.first, two.second*sizeof(T));
+    // one block, because that is what load() reads back: the buffer may be stored in two parts
+    T* const buff = new T[size];
+    std::copy(b.begin(), b.end(), buff);
+    ar.save_binary(buff, size*sizeof(T));
+    delete[] buff;
 }
 
 template <class Archive, class T>
@@ -47,7 +49,7 @@ void load(Archive& ar, circular_buffer<T>& b, const unsigned int /* version */)
     b.set_capacity(capacity);
     ar >> size;
     b.clear();
-    const typename circular_buffer<T>::pointer buff = new T[size*sizeof(T)];
+    const typename circular_buffer<T>::pointer buff = new T[size];
     ar.load_binary(buff, size*sizeof(T));
     b.insert(b.begin(), buff, buff+size);
     delete[] buff;
-- 
2.43.0


From 9c4b18ea28dac52a7a11aa8cbdb005967b8f6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:24 +0000
Subject: [PATCH 12/24] fix: tail variates can be serialized

---
 include/boost/accumulators/statistics/tail_variate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index 6885ece..b09aca9 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -70,6 +70,7 @@ namespace impl
             );
         }
 
+    public:
         // make this accumulator serializeable
         template<class Archive>
         void serialize(Archive & ar, const unsigned int file_version)
-- 
2.43.0


From f37231326554e80ad8ed687e64da3d42731da2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:24 +0000
Subject: [PATCH 13/24] fix: weighted peaks over threshold can be serialized
 with its complete state

---
 .../weighted_peaks_over_threshold.hpp         | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 41d4f51..8626265 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -118,8 +118,11 @@ namespace impl
             ar & sign_;
             ar & mu_;
             ar & sigma2_;
+            ar & w_sum_;
             ar & threshold_;
-            ar & fit_parameters_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
             ar & is_dirty_;
         }
 
@@ -234,6 +237,20 @@ namespace impl
             return this->fit_parameters_;
         }
 
+        // make this accumulator serializeable
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            ar & sign_;
+            ar & mu_;
+            ar & sigma2_;
+            ar & threshold_probability_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
+            ar & is_dirty_;
+        }
+
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
         mutable float_type mu_;                     // mean of samples above threshold u
-- 
2.43.0


From 43a2ec029d45e199c428cf4bf932284e48966fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 14/24] fix: last marker of the weighted P^2 cumulative
 distribution starts at the sum of all weights

---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index f8a44d6..dc6a272 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -111,7 +111,7 @@ namespace impl
                     }
 
                     // calculate correct initial actual positions
-                    for (std::size_t i = 1; i < b; ++i)
+                    for (std::size_t i = 1; i < b + 1; ++i)
                     {
                         this->actual_positions[i] += this->actual_positions[i - 1];
                     }
-- 
2.43.0


From 02eeb6a3522d3887eeee3e95d3cb7604e191668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 15/24] fix: markers of the weighted P^2 cumulative
 distribution aim at their own desired positions

---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index dc6a272..24a666a 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -153,7 +153,7 @@ namespace impl
                 for (std::size_t i = 1; i < b + 1; ++i)
                 {
                     this->desired_positions[i] = this->actual_positions[0]
-                                               + numeric::fdiv((i-1) * (sum_of_weights(args) - this->actual_positions[0]), b);
+                                               + numeric::fdiv(i * (sum_of_weights(args) - this->actual_positions[0]), b);
                 }
 
                 // adjust heights of markers 2 to num_cells if necessary
-- 
2.43.0


From a1ee0ba3068ca45f515ae4c007731ab161442595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:17 +0000
Subject: [PATCH 16/24] fix: tail quantile, tail variate means and threshold
 fit accept a rank equal to the number of cached samples

---
 include/boost/accumulators/statistics/peaks_over_threshold.hpp | 2 +-
 include/boost/accumulators/statistics/tail_quantile.hpp        | 2 +-
 include/boost/accumulators/statistics/tail_variate_means.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 2420b3c..6a3515b 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -257,7 +257,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n == 0 || n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n > static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index bbc6598..a380ca7 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n > 0 && n < static_cast<std::size_t>(tail(args).size()))
+            if ( n > 0 && n <= static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index 1842f5c..a251b22 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -104,7 +104,7 @@ namespace impl
             this->tail_means_.resize(num_variates, Sample(0));
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if (n < static_cast<std::size_t>(tail(args).size()))
+            if (n <= static_cast<std::size_t>(tail(args).size()))
             {
                 this->tail_means_ = std::accumulate(
                     tail_variate(args).begin()
-- 
2.43.0


From af663f54c546eed515e04a170d8c03bfff9f6a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:01 +0000
Subject: [PATCH 17/24] fix: the rolling_window extractor can be instantiated

---
 include/boost/accumulators/statistics/rolling_window.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index cc1bde7..0eff19f 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -157,7 +157,8 @@ namespace impl
         template<typename Args>
         result_type result(Args const &args) const
         {
-            return rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
+            extractor<tag::rolling_window_plus1> const some_window = {};
+            return some_window(args).advance_begin(is_rolling_window_plus1_full(args));
         }
         
         // serialization is done by accumulators it depends on
-- 
2.43.0


From 3c106965da1830b224890203a2e3119635e59798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:34 +0000
Subject: [PATCH 18/24] fix: dropping a feature releases the dependencies of
 the accumulator that provides it

---
 include/boost/accumulators/framework/accumulator_set.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index e89e5e9..a5e720d 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -430,15 +430,11 @@ struct accumulator_set
         typedef typename apply<Feature>::type the_accumulator;
         BOOST_MPL_ASSERT((detail::contains_feature_of<Features, the_accumulator>));
 
-        typedef
-            typename feature_of<typename as_feature<Feature>::type>::type
-        the_feature;
-
         (*fusion::find_if<detail::matches_feature<Feature> >(this->accumulators))
             .drop(boost::accumulators::accumulator = *this);
 
         // Also drop accumulators that this feature depends on
-        typedef typename the_feature::dependencies dependencies;
+        typedef typename the_accumulator::feature_tag::dependencies dependencies;
         this->template visit_if<detail::contains_feature_of_<dependencies> >(
             detail::make_drop_visitor(boost::accumulators::accumulator = *this)
         );
-- 
2.43.0


From c31f8f6f5789f49bd75ae8d436e7681b447564ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:15 +0000
Subject: [PATCH 19/24] fix: features given in a nested sequence are add_ref'ed
 and can be dropped

---
 .../accumulators/framework/depends_on.hpp     | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index e0036ac..69185f5 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -16,6 +16,8 @@
 #include <boost/mpl/fold.hpp>
 #include <boost/mpl/size.hpp>
 #include <boost/mpl/sort.hpp>
+#include <boost/mpl/logical.hpp>
+#include <boost/mpl/find_if.hpp>
 #include <boost/mpl/insert.hpp>
 #include <boost/mpl/assert.hpp>
 #include <boost/mpl/remove.hpp>
@@ -186,18 +188,40 @@ namespace boost { namespace accumulators
         };
 
         template<typename Features, typename Accumulator>
-        struct contains_feature_of
-        {
-            typedef
-                mpl::transform_view<Features, feature_of<as_feature<mpl::_> > >
-            features_list;
+        struct contains_feature_of;
 
+        // Does the given element of a feature list, either a feature or a
+        // nested sequence of features, provide the feature of Accumulator?
+        template<typename Accumulator>
+        struct provides_feature_of
+        {
             typedef
                 typename feature_of<typename feature_tag<Accumulator>::type>::type
             the_feature;
 
+            template<typename Feature>
+            struct apply
+              : mpl::if_<
+                    mpl::is_sequence<typename as_feature<Feature>::type>
+                  , contains_feature_of<typename as_feature<Feature>::type, Accumulator>
+                  , is_same<
+                        typename feature_of<typename as_feature<Feature>::type>::type
+                      , the_feature
+                    >
+                >::type::type
+            {};
+        };
+
+        template<typename Features, typename Accumulator>
+        struct contains_feature_of
+        {
             typedef
-                typename mpl::contains<features_list, the_feature>::type
+                typename mpl::not_<
+                    is_same<
+                        typename mpl::find_if<Features, provides_feature_of<Accumulator> >::type
+                      , typename mpl::end<Features>::type
+                    >
+                >::type
             type;
         };
 
-- 
2.43.0


From 91d3b4dfe082963995ed86ff38e5082dc8a4d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:26 +0000
Subject: [PATCH 20/24] fix: the unit of std::complex is 1+0i, not 1+1i

---
 include/boost/accumulators/numeric/functional/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/numeric/functional/complex.hpp b/include/boost/accumulators/numeric/functional/complex.hpp
index ea8c033..9d32482 100644
--- a/include/boost/accumulators/numeric/functional/complex.hpp
+++ b/include/boost/accumulators/numeric/functional/complex.hpp
@@ -60,7 +60,7 @@ namespace boost { namespace numeric
 
         template<typename T>
         std::complex<T> const one_complex<T>::value
-          = std::complex<T>(numeric::one<T>::value, numeric::one<T>::value);
+          = std::complex<T>(numeric::one<T>::value);
     }
 
     /// INTERNAL ONLY
-- 
2.43.0


From cc1cb53ec733d4c3df11452a887450909c6f43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:26 +0000
Subject: [PATCH 21/24] fix: covariance starts with the shape its updates have
 (variate by sample)

---
 include/boost/accumulators/statistics/covariance.hpp          | 4 ++--
 include/boost/accumulators/statistics/weighted_covariance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/covariance.hpp b/include/boost/accumulators/statistics/covariance.hpp
index d80a85e..90abba4 100644
--- a/include/boost/accumulators/statistics/covariance.hpp
+++ b/include/boost/accumulators/statistics/covariance.hpp
@@ -123,8 +123,8 @@ namespace impl
         covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                 )
             )
         {
diff --git a/include/boost/accumulators/statistics/weighted_covariance.hpp b/include/boost/accumulators/statistics/weighted_covariance.hpp
index e423a22..f529cf0 100644
--- a/include/boost/accumulators/statistics/weighted_covariance.hpp
+++ b/include/boost/accumulators/statistics/weighted_covariance.hpp
@@ -66,9 +66,9 @@ namespace impl
         weighted_covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
                       * numeric::one<Weight>::value
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                       * numeric::one<Weight>::value
                 )
             )
-- 
2.43.0


From 5d89f4927d575f0e85c40089ff9db4dff66088d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:20 +0000
Subject: [PATCH 22/24] fix: do not move a named temporary into the first
 accumulator that stores it

A sample, variate or initial value passed by name as a temporary is visible to
every accumulator of the set; the first one that stored it emptied it for the rest.
---
 include/boost/accumulators/statistics/moment.hpp         | 2 +-
 include/boost/accumulators/statistics/rolling_moment.hpp | 2 +-
 include/boost/accumulators/statistics/rolling_sum.hpp    | 2 +-
 include/boost/accumulators/statistics/rolling_window.hpp | 2 +-
 include/boost/accumulators/statistics/sum.hpp            | 2 +-
 include/boost/accumulators/statistics/tail_variate.hpp   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/statistics/moment.hpp b/include/boost/accumulators/statistics/moment.hpp
index aeca6a9..73f7696 100644
--- a/include/boost/accumulators/statistics/moment.hpp
+++ b/include/boost/accumulators/statistics/moment.hpp
@@ -59,7 +59,7 @@ namespace impl
 
         template<typename Args>
         moment_impl(Args const &args)
-          : sum(args[sample | Sample()])
+          : sum(static_cast<Sample const &>(args[sample | Sample()])) // copied: other accumulators need it too
         {
         }
 
diff --git a/include/boost/accumulators/statistics/rolling_moment.hpp b/include/boost/accumulators/statistics/rolling_moment.hpp
index 28ea5b5..24675cf 100644
--- a/include/boost/accumulators/statistics/rolling_moment.hpp
+++ b/include/boost/accumulators/statistics/rolling_moment.hpp
@@ -38,7 +38,7 @@ namespace impl
 
         template<typename Args>
         rolling_moment_impl(Args const &args)
-          : sum_(args[sample | Sample()])
+          : sum_(static_cast<Sample const &>(args[sample | Sample()])) // copied: other accumulators need it too
         {
         }
 
diff --git a/include/boost/accumulators/statistics/rolling_sum.hpp b/include/boost/accumulators/statistics/rolling_sum.hpp
index c511460..7746119 100644
--- a/include/boost/accumulators/statistics/rolling_sum.hpp
+++ b/include/boost/accumulators/statistics/rolling_sum.hpp
@@ -32,7 +32,7 @@ namespace impl
 
         template<typename Args>
         rolling_sum_impl(Args const &args)
-          : sum_(args[sample | Sample()])
+          : sum_(static_cast<Sample const &>(args[sample | Sample()])) // copied: other accumulators need it too
         {}
 
         template<typename Args>
diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 0eff19f..099dede 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -109,7 +109,7 @@ namespace impl
         template<typename Args>
         void operator ()(Args const &args)
         {
-            this->buffer_.push_back(args[sample]);
+            this->buffer_.push_back(static_cast<Sample const &>(args[sample])); // copied: other accumulators need it too
         }
 
         bool full() const
diff --git a/include/boost/accumulators/statistics/sum.hpp b/include/boost/accumulators/statistics/sum.hpp
index c8beb55..a3e6bd7 100644
--- a/include/boost/accumulators/statistics/sum.hpp
+++ b/include/boost/accumulators/statistics/sum.hpp
@@ -35,7 +35,7 @@ namespace impl
 
         template<typename Args>
         sum_impl(Args const &args)
-          : sum(args[parameter::keyword<Tag>::get() | Sample()])
+          : sum(static_cast<Sample const &>(args[parameter::keyword<Tag>::get() | Sample()])) // copied: other accumulators need it too
         {
         }
 
diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index b09aca9..48c53d4 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -48,7 +48,7 @@ namespace impl
         template<typename Args>
         void assign(Args const &args, std::size_t index)
         {
-            this->variates[index] = args[parameter::keyword<VariateTag>::get()];
+            this->variates[index] = static_cast<VariateType const &>(args[parameter::keyword<VariateTag>::get()]); // copied: other accumulators need it too
         }
 
         template<typename Args>
-- 
2.43.0


From a8100043a9747f242d76ce88252ed093b93287a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:41 +0000
Subject: [PATCH 23/24] fix: save the samples of a rolling window one by one
 when they are not trivially copyable

The ring buffer was written as raw bytes, so valarray or vector samples were
saved as pointers.
---
 .../statistics/rolling_window.hpp             | 60 ++++++++++++++++---
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 099dede..9f3551a 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -13,7 +13,9 @@
 #include <boost/version.hpp>
 #include <boost/assert.hpp>
 #include <boost/circular_buffer.hpp>
+#include <boost/mpl/bool.hpp>
 #include <boost/range/iterator_range.hpp>
+#include <boost/type_traits/has_trivial_copy.hpp>
 #include <boost/accumulators/accumulators_fwd.hpp>
 #include <boost/accumulators/framework/extractor.hpp>
 #include <boost/accumulators/framework/depends_on.hpp>
@@ -24,6 +26,53 @@
 #include <boost/accumulators/statistics_fwd.hpp>
 #include <boost/serialization/split_free.hpp>
 
+namespace boost { namespace accumulators { namespace detail
+{
+    // trivially copyable samples are saved as one block
+    template<class Archive, class T>
+    void save_samples(Archive &ar, circular_buffer<T> const &b, mpl::true_)
+    {
+        typename circular_buffer<T>::size_type size = b.size();
+        // one block, because that is what load_samples() reads back: the buffer may be stored in two parts
+        T* const buff = new T[size];
+        std::copy(b.begin(), b.end(), buff);
+        ar.save_binary(buff, size*sizeof(T));
+        delete[] buff;
+    }
+
+    template<class Archive, class T>
+    void load_samples(Archive &ar, circular_buffer<T> &b, typename circular_buffer<T>::size_type size, mpl::true_)
+    {
+        const typename circular_buffer<T>::pointer buff = new T[size];
+        ar.load_binary(buff, size*sizeof(T));
+        b.insert(b.begin(), buff, buff+size);
+        delete[] buff;
+    }
+
+    // others, which may own memory, one by one
+    template<class Archive, class T>
+    void save_samples(Archive &ar, circular_buffer<T> const &b, mpl::false_)
+    {
+        typename circular_buffer<T>::const_iterator it = b.begin(), end = b.end();
+        for(; it != end; ++it)
+        {
+            T const &t = *it;
+            ar << t;
+        }
+    }
+
+    template<class Archive, class T>
+    void load_samples(Archive &ar, circular_buffer<T> &b, typename circular_buffer<T>::size_type size, mpl::false_)
+    {
+        for(; size != 0; --size)
+        {
+            T t;
+            ar >> t;
+            b.push_back(t);
+        }
+    }
+}}} // namespace boost::accumulators::detail
+
 namespace boost { namespace serialization {
 
 // implement serialization for boost::circular_buffer
@@ -33,11 +82,7 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    // one block, because that is what load() reads back: the buffer may be stored in two parts
-    T* const buff = new T[size];
-    std::copy(b.begin(), b.end(), buff);
-    ar.save_binary(buff, size*sizeof(T));
-    delete[] buff;
+    accumulators::detail::save_samples(ar, b, mpl::bool_<has_trivial_copy<T>::value>());
 }
 
 template <class Archive, class T>
@@ -49,10 +94,7 @@ void load(Archive& ar, circular_buffer<T>& b, const unsigned int /* version */)
     b.set_capacity(capacity);
     ar >> size;
     b.clear();
-    const typename circular_buffer<T>::pointer buff = new T[size];
-    ar.load_binary(buff, size*sizeof(T));
-    b.insert(b.begin(), buff, buff+size);
-    delete[] buff;
+    accumulators::detail::load_samples(ar, b, size, mpl::bool_<has_trivial_copy<T>::value>());
 }
 
 template<class Archive, class T>
-- 
2.43.0


From 3711562653cb41d46b8dcec63dbcb907333246bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:41 +0000
Subject: [PATCH 24/24] fix: save the reference count and the cached result of
 droppable accumulators

A set loaded from an archive forgot which of its accumulators had been dropped,
and a dropped accumulator its cached result.
---
 .../accumulators/droppable_accumulator.hpp    | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
index 21fdb51..e06f2f1 100644
--- a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
@@ -157,6 +157,14 @@ namespace boost { namespace accumulators
             return 0 == this->ref_count_;
         }
 
+        // make this accumulator serializeable; whether it has been dropped is part of its state
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            this->Accumulator::serialize(ar, file_version);
+            ar & this->ref_count_;
+        }
+
     private:
         int ref_count_;
     };
@@ -231,6 +239,33 @@ namespace boost { namespace accumulators
             return this->has_result() ? this->get() : this->Accumulator::result(args);
         }
 
+        // make this accumulator serializeable, together with the result it has cached
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            this->Accumulator::serialize(ar, file_version);
+            bool const had_result = this->has_result();
+            bool cached = had_result;
+            ar & cached;
+            if(cached)
+            {
+                result_type r = had_result ? this->get() : result_type();
+                ar & r;
+                if(Archive::is_loading::value)
+                {
+                    if(had_result)
+                    {
+                        this->get().~result_type();
+                    }
+                    this->set(r);
+                }
+            }
+            else if(had_result)
+            {
+                this->get().~result_type();
+            }
+        }
+
     private:
         BOOST_DELETED_FUNCTION(with_cached_result &operator =(with_cached_result const &))
 
-- 
2.43.0

