From 96ae3e240819b8a93b8ad7dab33c3936ed07c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 01/15] fix: Derivative keeps its last output, not its last
 input, for a repeated time

---
 src/block/extra/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index 9f6c5cb..e2bf4ff 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -44,7 +44,7 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         _t          = t;
         _x          = Base::_s_in;
-        _y          = _x;
+        _y          = Base::_s_out;
         _first_step = false;
     }
 
-- 
2.43.0


From 8311034b8332474c332cb4854c5760e99df92c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 02/15] fix: Delay keeps the sample preceding its lifespan so
 that delays within it interpolate

---
 src/block/extra/delay.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/block/extra/delay.hpp b/src/block/extra/delay.hpp
index 06f71b2..c0f83d2 100644
--- a/src/block/extra/delay.hpp
+++ b/src/block/extra/delay.hpp
@@ -71,6 +71,8 @@ public:
                 }
                 k++;
             }
+            // keep the newest sample older than the lifespan: it is needed for the interpolation
+            if (k > 0) k--;
             _t.erase(_t.begin(), _t.begin() + k);
             _x.erase(_x.begin(), _x.begin() + k);
         }
-- 
2.43.0


From 9c24541905c60bbb29914c53734f7cc86c0b1a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 03/15] fix: untracking a signal that is not tracked erased
 past the end of the list

---
 src/solver/history.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index e431206..eabad84 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -41,7 +41,8 @@ void History::untrack(const Signal& sig)
     pooya_debug_verify(empty(), "untrack should be called before the history is updated!");
 
     auto vsig = std::dynamic_pointer_cast<ValueSignalImpl>(sig->shared_from_this());
-    if (vsig) _signals.erase(std::find(_signals.begin(), _signals.end(), vsig));
+    auto it   = std::find(_signals.begin(), _signals.end(), vsig);
+    if (it != _signals.end()) _signals.erase(it);
 }
 
 void History::update(uint k, double t)
-- 
2.43.0


From defc7d8c867e5efe55c34c6c8ef1d647aed0b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 04/15] fix: BusImpl::try_at descended into non-bus signals and
 threw for missing nested labels

---
 src/signal/bus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/bus.hpp b/src/signal/bus.hpp
index 1f0d88f..ffc8014 100644
--- a/src/signal/bus.hpp
+++ b/src/signal/bus.hpp
@@ -130,9 +130,9 @@ public:
             return it->second;
         }
 
-        BusImpl* bus = static_cast<BusImpl*>(&it->second.impl());
+        auto* bus = dynamic_cast<BusImpl*>(&it->second.impl());
         if (!bus) return std::nullopt;
-        return bus->at(label.substr(pos + 1));
+        return bus->try_at(label.substr(pos + 1));
     }
 
     Signal operator[](std::string_view label) const { return at(label); }
-- 
2.43.0


From fa310c8eeebcf827b5e7271fa8fb53c19382e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 05/15] fix: InitialValue did not compile

---
 src/block/extra/initial_value.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/block/extra/initial_value.hpp b/src/block/extra/initial_value.hpp
index e1c6212..c833412 100644
--- a/src/block/extra/initial_value.hpp
+++ b/src/block/extra/initial_value.hpp
@@ -41,11 +41,15 @@ public:
         pooya_trace("block: " + Base::full_name().str());
         if (_init)
         {
-            _value      = Base::_s_in->get();
-            Base::_ibus = nullptr;
-            _init       = false;
+            _value = Base::_s_in->get_value();
+            _init  = false;
+            // the input is not needed anymore
+            if (auto* ptr = Base::find_linked_signal(Base::_s_in.impl()))
+            {
+                ptr->second = ptr->second & (~Base::SignalLinkType::Required);
+            }
         }
-        Base::_s_out->set(_value);
+        Base::_s_out = _value;
     }
 
 protected:
-- 
2.43.0


From 978d66723a51ea75ae5313ad3703b5b30ba207e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 06/15] fix: SubtractA, DivideA and DerivativeA did not compile

---
 src/block/extra/derivative.hpp | 2 +-
 src/block/extra/divide.hpp     | 2 +-
 src/block/extra/subtract.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block/extra/derivative.hpp b/src/block/extra/derivative.hpp
index e2bf4ff..d9a62b6 100644
--- a/src/block/extra/derivative.hpp
+++ b/src/block/extra/derivative.hpp
@@ -63,7 +63,7 @@ public:
         }
         else
         {
-            Base::_s_out = (Base::_s_in - _x) / (t - _t);
+            Base::_s_out = (Base::_s_in->get_value() - _x) / (t - _t);
         }
     }
 
diff --git a/src/block/extra/divide.hpp b/src/block/extra/divide.hpp
index 6b9add3..9c582f3 100644
--- a/src/block/extra/divide.hpp
+++ b/src/block/extra/divide.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 / _s_x2;
+        Base::_s_out = _s_x1->get_value() / _s_x2->get_value();
     }
 
 protected:
diff --git a/src/block/extra/subtract.hpp b/src/block/extra/subtract.hpp
index f75f706..82a20f0 100644
--- a/src/block/extra/subtract.hpp
+++ b/src/block/extra/subtract.hpp
@@ -54,7 +54,7 @@ public:
     void activation_function(double /*t*/) override
     {
         pooya_trace("block: " + Base::full_name().str());
-        Base::_s_out = _s_x1 - _s_x2;
+        Base::_s_out = _s_x1->get_value() - _s_x2->get_value();
     }
 
 protected:
-- 
2.43.0


From 67c8e1997c054c276f93d4c0bd122d9abe53a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 07/15] fix: the first sub-step of run() ignored the maximum
 time step

---
 src/solver/simulator_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 1c4a1e9..555e244 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -193,7 +193,7 @@ void SimulatorBase::run(double t, double min_time_step, double max_time_step)
 
             double new_h;
             double t1         = _t_prev;
-            double t2         = t;
+            double t2         = std::min(t1 + max_time_step, t);
             bool force_accept = false;
             while (t1 < t)
             {
-- 
2.43.0


From 7c2d52c72f3a858b4c4835ce5e3f2de1af42df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 08/15] fix: initializing a simulator again duplicated its
 signals and overran the state vector

---
 src/solver/simulator_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/simulator_base.cpp b/src/solver/simulator_base.cpp
index 555e244..6009b08 100644
--- a/src/solver/simulator_base.cpp
+++ b/src/solver/simulator_base.cpp
@@ -78,17 +78,20 @@ void SimulatorBase::init(double t0)
         },
         0);
 
+    value_signals_.clear();
     value_signals_.reserve(value_signals.size());
     for (auto* sig : value_signals)
     {
         value_signals_.emplace_back(std::static_pointer_cast<ValueSignalImpl>(sig->shared_from_this()));
     }
+    scalar_state_signals_.clear();
     scalar_state_signals_.reserve(scalar_state_signals.size());
     for (auto* sig : scalar_state_signals)
     {
         scalar_state_signals_.emplace_back(std::static_pointer_cast<ScalarSignalImpl>(sig->shared_from_this()));
     }
 #ifdef POOYA_ARRAY_SIGNAL
+    array_state_signals_.clear();
     array_state_signals_.reserve(array_state_signals.size());
     for (auto* sig : array_state_signals)
     {
-- 
2.43.0


From 0ec8e3b9cfd95f328a5580c8124b9cce69f869dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 09/15] fix: Simulator with reuse_order dereferenced a null
 order for models without state variables

---
 src/solver/simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index f385ba8..5e01b06 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -126,7 +126,7 @@ void Simulator::init(double t0)
 
     SimulatorBase::init(t0);
 
-    if (_state_variables.size() > 0 && _reuse_order)
+    if (_reuse_order)
     {
         pooya_debug_verify0(_processing_order1.empty());
         pooya_debug_verify0(_processing_order2.empty());
-- 
2.43.0


From 306af6e8965e92574db2cf2cf3006f913e6a0207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 10/15] fix: History with a zero growth size wrote out of
 bounds

---
 src/solver/history.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/history.hpp b/src/solver/history.hpp
index 687582a..6c60d20 100644
--- a/src/solver/history.hpp
+++ b/src/solver/history.hpp
@@ -42,7 +42,7 @@ protected:
     std::vector<std::shared_ptr<ValueSignalImpl>> _signals;
 
 public:
-    History(uint nrows_grow = 1000) : _nrows_grow(nrows_grow), _time(nrows_grow) {}
+    History(uint nrows_grow = 1000) : _nrows_grow(nrows_grow > 0 ? nrows_grow : 1), _time(nrows_grow) {}
 
     bool track(const Signal& sig);
     void untrack(const Signal& sig);
-- 
2.43.0


From f83dcbd41464398fa1928d1711108095c1366165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 11/15] fix: History::export_csv printed the unused rows of a
 history that was not shrunk

---
 src/solver/history.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index eabad84..550fbde 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -177,8 +177,8 @@ void History::export_csv(const std::string& filename)
     ofs << "\n";
 
     // values
-    auto n = time().size();
-    for (int k = 0; k < n; k++)
+    const uint n = nrows();
+    for (uint k = 0; k < n; k++)
     {
         ofs << time()(k);
         for (const auto& h : *this)
-- 
2.43.0


From 8e6298b6800e3863a1db89029f6a4e45950cd7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 12/15] fix: a rejected SignalT::reset left the handle without
 a signal

---
 src/signal/signal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal/signal.hpp b/src/signal/signal.hpp
index 1ce7aad..19ab96d 100644
--- a/src/signal/signal.hpp
+++ b/src/signal/signal.hpp
@@ -84,8 +84,8 @@ public:
 
     virtual void reset(const Signal& sig)
     {
-        _ptr = std::dynamic_pointer_cast<Impl>(sig->shared_from_this());
-        fail_if_invalid_signal_type<T>(_ptr.get());
+        fail_if_invalid_signal_type<T>(&sig.impl());
+        _ptr = sig->shared_from_this();
         update_typed_ptr();
     }
 
-- 
2.43.0


From 4b213ab3ba0f1b8f15d3f788547b01d95d8d23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 13/15] fix: a rejected set_deriv_signal still made the signal
 a state variable

---
 src/signal/float_signal.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/signal/float_signal.hpp b/src/signal/float_signal.hpp
index 33f9e62..5f97d17 100644
--- a/src/signal/float_signal.hpp
+++ b/src/signal/float_signal.hpp
@@ -39,8 +39,9 @@ public:
     void set_deriv_signal(const Signal& deriv_sig)
     {
         Signal::fail_if_invalid_signal_type<T>(&deriv_sig.impl());
-        _deriv_sig = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
-        pooya_verify(_size == _deriv_sig->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        auto ptr = std::static_pointer_cast<typename Types<T>::SignalImpl>(deriv_sig->shared_from_this());
+        pooya_verify(_size == ptr->size(), name().str() + ", " + deriv_sig->name().str() + ": size mismatch!");
+        _deriv_sig = ptr;
     }
 
     typename Types<T>::SignalImpl* deriv_signal() const { return _deriv_sig.get(); }
-- 
2.43.0


From ef38fe4c521327c9f88fab68f5a1e7a64442e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 14/15] fix: History::shrink_to_fit shrinks the records even if
 the time needs no shrinking

---
 src/solver/history.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/solver/history.cpp b/src/solver/history.cpp
index 550fbde..f8e5d55 100644
--- a/src/solver/history.cpp
+++ b/src/solver/history.cpp
@@ -131,11 +131,7 @@ void History::shrink_to_fit()
     pooya_trace0;
     const uint nrows = _bottom_row + 1;
 
-    if (nrows >= _time.rows())
-    {
-        return;
-    } // practically, nrows can't be the greater
-
+    // the time and the records may have been allocated with different numbers of rows
     _time.conservativeResize(nrows, Eigen::NoChange);
     for (auto& p : *this)
     {
-- 
2.43.0


From ab418310fc014e75e168577b1410a91a2938b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:43 +0000
Subject: [PATCH 15/15] fix: keep blocks that need no processing (bus block
 builders) in the reused processing order

---
 src/solver/simulator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/solver/simulator.cpp b/src/solver/simulator.cpp
index 5e01b06..9fb1d98 100644
--- a/src/solver/simulator.cpp
+++ b/src/solver/simulator.cpp
@@ -46,6 +46,15 @@ void Simulator::process_model(double t, bool call_pre_step, bool call_post_step)
     {
         _new_po->clear();
 
+        // blocks that need no processing (e.g. bus block builders) stay in the order
+        for (auto* base : *_current_po)
+        {
+            if (base->processed())
+            {
+                _new_po->emplace_back(base);
+            }
+        }
+
         bool any_processed;
         do
         {
-- 
2.43.0

