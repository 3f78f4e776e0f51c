From f7aafe5b378eceb457c35f404f4e0a8ec93c143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 01/23] fix: make bus.hpp self-contained (missing <algorithm>
 and <optional>)

---
 src/signal/bus.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 1f0d88f..8503520 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -18,7 +18,9 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 #ifndef __POOYA_SIGNAL_BUS_HPP__
 #define __POOYA_SIGNAL_BUS_HPP__
 
+#include <algorithm>
 #include <memory>
+#include <optional>
 #include <string>
 #include <vector>
 
-- 
2.43.0


From 1848b0dcb362007c2ca45ed665feb424050cbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 02/23] fix: let Subtract, Divide and Derivative be used with
 array signals

---
 src/block/extra/derivative.hpp | 2 +-
 src/block/extra/divide.hpp     | 2 +-
 src/block/extra/subtract.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..ee5608d 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From b98a746a618ea0a0c70bae81a2e569978ec767f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 03/23] fix: make the InitialValue block compile

---
 src/block/extra/initial_value.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..3ba8ab8 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,10 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in;
+            _init  = false;
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From 570b12886e8b7f1416954e3a0036aa0a7bff16ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 04/23] fix: Derivative remembers its last output, not its last
 input

---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index ee5608d..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From d500b2630e85168279830c3d5bc2b95f8fcd817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 05/23] fix: TriggeredIntegrator samples its trigger at
 accepted steps only

---
 src/block/extra/triggered_integrator.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/block/extra/triggered_integrator.hpp b/src/block/extra/triggered_integrator.hpp
index 2d56709..4814311 100644
--- a/src/block/extra/triggered_integrator.hpp
+++ b/src/block/extra/triggered_integrator.hpp
@@ -72,13 +72,11 @@ public:
         Base::pre_step(t);
     }
 
-    void activation_function(double /*t*/) override
+    void post_step(double t) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        if (!_triggered)
-        {
-            _triggered = _trigger;
-        }
+        Base::post_step(t);
+        _triggered = _trigger;
     }
 
 protected:
-- 
2.43.0


From e4bb8f0ebc7de3c356bdddb0459e91c634232029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 06/23] fix: Delay keeps the sample needed to interpolate at
 the end of its lifespan

---
 src/block/extra/delay.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..4f3bc89 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,8 +71,12 @@ public:
                 }
                 k++;
             }
-            _t.erase(_t.begin(), _t.begin() + k);
-            _x.erase(_x.begin(), _x.begin() + k);
+            // keep the last sample before t1, it is needed for interpolation
+            if (k > 1)
+            {
+                _t.erase(_t.begin(), _t.begin() + k - 1);
+                _x.erase(_x.begin(), _x.begin() + k - 1);
+            }
         }
 
         pooya_debug_verify0(_t.empty() || (t > _t.back()));
-- 
2.43.0


From b90775791dd9dcad0443582ef12a02d819180c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 07/23] fix: untracking a signal that is not tracked is a no-op

---
 src/solver/history.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..eabad84 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -41,7 +41,8 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    auto it   = std::find(_signals.begin(), _signals.end(), vsig);
+    if (it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From 751a1198674c286af0cbbdfa5eae6ae688157917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 08/23] fix: History::update always grows enough to hold the
 new row

---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index eabad84..efabeeb 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -78,7 +78,7 @@ void History::update(uint k, double t)
 
     if (k >= _time.rows())
     {
-        _time.conservativeResize(k + _nrows_grow, Eigen::NoChange);
+        _time.conservativeResize(k + 1 + _nrows_grow, Eigen::NoChange);
     }
     _time(k, 0) = t;
     for (auto& sig : _signals)
@@ -86,7 +86,7 @@ void History::update(uint k, double t)
         auto& h = at(sig);
         if (k >= h.rows())
         {
-            h.conservativeResize(k + _nrows_grow, Eigen::NoChange);
+            h.conservativeResize(k + 1 + _nrows_grow, Eigen::NoChange);
         }
         bool valid = sig->assigned();
         if (auto* ps = dynamic_cast<ScalarSignalImpl*>(sig.get()); ps)
-- 
2.43.0


From 01dc9c1bd0a63c8a8f7437024f9026528124d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 09/23] fix: export only the recorded rows to csv

---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index efabeeb..b3362c4 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -177,8 +177,8 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    const uint n = nrows();
+    for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From d0f0458215908889c6c1853d8e7481c2b6e9913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 10/23] fix: BusImpl::try_at reports a missing nested label
 instead of misbehaving

---
 src/signal/bus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 8503520..3118c41 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -132,9 +132,9 @@ public:
             return it->second;
         }
 
-        BusImpl* bus = static_cast<BusImpl*>(&it->second.impl());
+        auto* bus = dynamic_cast<BusImpl*>(&it->second.impl());
         if (!bus) return std::nullopt;
-        return bus->at(label.substr(pos + 1));
+        return bus->try_at(label.substr(pos + 1));
     }
 
     Signal operator[](std::string_view label) const { return at(label); }
-- 
2.43.0


From 431a44df969ca438854876de8eff9817e7645f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 11/23] fix: a failed SignalT::reset leaves the wrapper
 unchanged

---
 src/signal/signal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 1ce7aad..19ab96d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -84,8 +84,8 @@ public:
 
     virtual void reset(const Signal& sig)
     {
-        _ptr = std::dynamic_pointer_cast<Impl>(sig->shared_from_this());
-        fail_if_invalid_signal_type<T>(_ptr.get());
+        fail_if_invalid_signal_type<T>(&sig.impl());
+        _ptr = sig->shared_from_this();
         update_typed_ptr();
     }
 
-- 
2.43.0


From 4f9d0efd6e5331b8c2ce69847ca46305db9ed106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 12/23] fix: prepare the processing order for stateless models
 too when reusing it

---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From b324e3f8283b80cbd3ea67ad5d142ec5e70b3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 13/23] fix: keep blocks that are born processed in the reused
 processing order

---
 src/solver/simulator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..00287be 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -46,6 +46,15 @@ void Simulator::process_model(double t, bool call_pre_step, bool call_post_step)
     {
         _new_po->clear();
 
+        // some blocks have nothing to process, and are marked as processed from the beginning
+        for (auto* base : *_current_po)
+        {
+            if (base->processed())
+            {
+                _new_po->emplace_back(base);
+            }
+        }
+
         bool any_processed;
         do
         {
-- 
2.43.0


From 4009ea9c6f0441b724b808a532a3fc88c3f0e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 14/23] fix: SimulatorBase::init starts from empty signal lists

---
 src/solver/simulator_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..c31e9c4 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -78,17 +78,20 @@ void SimulatorBase::init(double t0)
         },
         0);
 
+    value_signals_.clear();
     value_signals_.reserve(value_signals.size());
     for (auto* sig : value_signals)
     {
         value_signals_.emplace_back(std::static_pointer_cast<ValueSignalImpl>(sig->shared_from_this()));
     }
+    scalar_state_signals_.clear();
     scalar_state_signals_.reserve(scalar_state_signals.size());
     for (auto* sig : scalar_state_signals)
     {
         scalar_state_signals_.emplace_back(std::static_pointer_cast<ScalarSignalImpl>(sig->shared_from_this()));
     }
 #ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
     array_state_signals_.reserve(array_state_signals.size());
     for (auto* sig : array_state_signals)
     {
-- 
2.43.0


From 3d0e8d745a8de580dcc2b0ac5ee935712fabb6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 15/23] fix: the first sub-step of a run respects the maximum
 time step

---
 src/solver/simulator_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index c31e9c4..6009b08 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -196,7 +196,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
 
             double new_h;
             double t1         = _t_prev;
-            double t2         = t;
+            double t2         = std::min(t1 + max_time_step, t);
             bool force_accept = false;
             while (t1 < t)
             {
-- 
2.43.0


From 5c471e259eb66f5dd0a42ebac44689b2685ad2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 16/23] fix: FastSimulator::init starts from unprocessed blocks

---
 src/solver/fast_simulator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/fast_simulator.cpp b/src/solver/fast_simulator.cpp
index 2636a1c..bd2bc48 100644
--- a/src/solver/fast_simulator.cpp
+++ b/src/solver/fast_simulator.cpp
@@ -48,10 +48,12 @@ void FastSimulator::init(double t0)
 
     pooya_debug_verify0(_processing_order.empty());
 
+    _model._mark_unprocessed();
+
     uint num_blocks     = 0;
     auto enum_blocks_cb = [&](Block& c, uint32_t /*level*/) -> bool
     {
-        if (dynamic_cast<Leaf*>(&c)) num_blocks++;
+        if (dynamic_cast<Leaf*>(&c) && !c.processed()) num_blocks++;
         return true;
     };
     _model.visit(enum_blocks_cb, 0);
@@ -62,7 +64,7 @@ void FastSimulator::init(double t0)
 
     auto add_blocks_cb = [&po](Block& c, uint32_t /*level*/) -> bool
     {
-        if (auto* p = dynamic_cast<Leaf*>(&c)) po.push_back(p);
+        if (auto* p = dynamic_cast<Leaf*>(&c); p && !c.processed()) po.push_back(p);
         return true;
     };
     _model.visit(add_blocks_cb, 0);
-- 
2.43.0


From 9fe3ba080080070e9ffc035d5b430fb805741fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 17/23] fix: function blocks take their result by value (no
 dangling array reference)

---
 src/block/extra/siso_function.hpp | 2 +-
 src/block/extra/so_function.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block/extra/siso_function.hpp b/src/block/extra/siso_function.hpp
index 6087440..ea34560 100644
--- a/src/block/extra/siso_function.hpp
+++ b/src/block/extra/siso_function.hpp
@@ -33,7 +33,7 @@ class SISOFunctionT : public SingleInputOutputT<T>
 {
 public:
     using Base        = SingleInputOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, typename Types<T>::GetValue)>;
+    using ActFunction = std::function<T(double, typename Types<T>::GetValue)>;
 
     explicit SISOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "")
         : Base(parent, name, 1), _act_func(act_func)
diff --git a/src/block/extra/so_function.hpp b/src/block/extra/so_function.hpp
index 8179405..ae209ea 100644
--- a/src/block/extra/so_function.hpp
+++ b/src/block/extra/so_function.hpp
@@ -33,7 +33,7 @@ class SOFunctionT : public SingleOutputT<T>
 {
 public:
     using Base        = SingleOutputT<T>;
-    using ActFunction = std::function<typename Types<T>::SetValue(double, const pooya::Bus& ibus)>;
+    using ActFunction = std::function<T(double, const pooya::Bus& ibus)>;
 
     explicit SOFunctionT(ActFunction act_func, Submodel* parent = nullptr, std::string_view name = "",
                          uint16_t num_iports = Block::NoIOLimit)
-- 
2.43.0


From 55b53e3ce1d03d132007a15e9d8a9d7768d49307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 18/23] fix: signals cannot be constructed directly by passing
 {} as the passkey

---
 src/signal/signal.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 19ab96d..c076ca7 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -36,6 +36,7 @@ public:
 protected:
     struct Protected
     {
+        explicit Protected() = default;
     };
 
     SignalImpl(std::string_view name) : NamedObject(name) {}
-- 
2.43.0


From 59ee430141b5c8a217f271b1b850682c697418a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 19/23] fix: moving a typed signal leaves the source valid

---
 src/signal/signal.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index c076ca7..adc547d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -83,6 +83,8 @@ public:
         update_typed_ptr();
     }
 
+    SignalT(const SignalT&) = default; // no move: a moved-from signal must not become null
+
     virtual void reset(const Signal& sig)
     {
         fail_if_invalid_signal_type<T>(&sig.impl());
-- 
2.43.0


From 60af50a95519923ed42df8d1d5fdab9075170732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 20/23] fix: make the Gnuplot::file1d specialization in the
 header inline

---
 src/misc/gp-ios.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/gp-ios.hpp b/src/misc/gp-ios.hpp
index 4a2d058..3cc7dbb 100644
--- a/src/misc/gp-ios.hpp
+++ b/src/misc/gp-ios.hpp
@@ -21,7 +21,7 @@ public:
 };
 
 template<>
-std::string Gnuplot::file1d(const Eigen::MatrixXd& arg, const std::string& filename)
+inline std::string Gnuplot::file1d(const Eigen::MatrixXd& arg, const std::string& filename)
 {
     return file1d(pooya::Array{arg.reshaped()}, filename);
 }
-- 
2.43.0


From dca129bf71e3524ac55fed6e6e9799ed045d205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 21/23] fix: a rejected derivative signal is not kept

---
 src/signal/float_signal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index 33f9e62..5f97d17 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -39,8 +39,9 @@ public:
     void set_deriv_signal(const Signal& deriv_sig)
     {
         Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
-        _deriv_sig = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
-        pooya_verify(_size == _deriv_sig->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        auto ptr = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
+        pooya_verify(_size == ptr->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        _deriv_sig = ptr;
     }
 
     typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
-- 
2.43.0


From 0ab75463cdb772172a7063062dde31edb87ae651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 22/23] fix: signal objects are not copyable (a copy would not
 be under shared ownership)

---
 src/signal/signal.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index adc547d..359ed43 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -31,8 +31,11 @@ namespace pooya
 class SignalImpl : public std::enable_shared_from_this<SignalImpl>, public NamedObject
 {
 public:
+    SignalImpl(const SignalImpl&) = delete; // a copy would not be under shared ownership
     virtual ~SignalImpl() = default;
 
+    SignalImpl& operator=(const SignalImpl&) = delete;
+
 protected:
     struct Protected
     {
-- 
2.43.0


From 7a812977e34ed19f249f37786b1b3780fbdad7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 23/23] fix: the int, bool and array signal headers are usable
 when included first

---
 src/signal/array_signal.hpp | 2 ++
 src/signal/bool_signal.hpp  | 2 ++
 src/signal/int_signal.hpp   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/signal/array_signal.hpp b/src/signal/array_signal.hpp
index 73a07e2..99def3b 100644
--- a/src/signal/array_signal.hpp
+++ b/src/signal/array_signal.hpp
@@ -18,6 +18,8 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 #ifndef __POOYA_SIGNAL_ARRAY_SIGNAL_HPP__
 #define __POOYA_SIGNAL_ARRAY_SIGNAL_HPP__
 
+#include "src/helper/defs.hpp"
+
 #ifdef POOYA_ARRAY_SIGNAL
 
 #include "array.hpp"
diff --git a/src/signal/bool_signal.hpp b/src/signal/bool_signal.hpp
index 347b05a..2f9dd8d 100644
--- a/src/signal/bool_signal.hpp
+++ b/src/signal/bool_signal.hpp
@@ -18,6 +18,8 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 #ifndef __POOYA_SIGNAL_BOOL_SIGNAL_HPP__
 #define __POOYA_SIGNAL_BOOL_SIGNAL_HPP__
 
+#include "src/helper/defs.hpp"
+
 #ifdef POOYA_BOOL_SIGNAL
 
 #include "src/helper/trace.hpp"
diff --git a/src/signal/int_signal.hpp b/src/signal/int_signal.hpp
index 2ed1852..04e4fcc 100644
--- a/src/signal/int_signal.hpp
+++ b/src/signal/int_signal.hpp
@@ -18,6 +18,8 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR
 #ifndef __POOYA_SIGNAL_INT_SIGNAL_HPP__
 #define __POOYA_SIGNAL_INT_SIGNAL_HPP__
 
+#include "src/helper/defs.hpp"
+
 #ifdef POOYA_INT_SIGNAL
 
 #include <cmath>
-- 
2.43.0

