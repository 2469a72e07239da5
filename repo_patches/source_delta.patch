From f83c66edc45ba6ddede9be2ee01dd5aad71a809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 01/49] fix: restart reading the trace at each evaluation pass
 of an atom

When an online evaluation ran several passes, atoms appended to the signal of the previous
pass and re-read samples from a stale index, so lower/upper bounds saw wrong slopes.
---
 src/stl_atom.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 49ce337..8c20af5 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -31,6 +31,7 @@ namespace STLRom {
     
         childL->compute_robustness();
         childR->compute_robustness();
+        z.clear();
         auto itL = childL->z.begin();
         auto itR = childR->z.begin();
         for (; itL != childL->z.end() &&  itR != childR->z.end() ;itL++, itR++) {
@@ -77,6 +78,10 @@ namespace STLRom {
         short i = signal_map[variable];
         double t=0., v=0.;  
         double res= 0.;
+
+        // (re)start from the first sample: a previous pass may have read part of the trace
+        z.clear();
+        td_idx = 0;
             
         if (i) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
@@ -118,6 +123,10 @@ namespace STLRom {
         }
 
         double t=0.;  
+
+        // (re)start from the first sample: a previous pass may have read part of the trace
+        z.clear();
+        td_idx = 0;
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
             t = (trace_data_ptr->at(td_idx))[0];
-- 
2.43.0


From b05b1a26dc857c6fec84e45d011be8b44ca1ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 02/49] fix: keep slopes and end time in arithmetic expressions

abs/plus/minus/mult dropped derivatives and the end of the evaluated horizon, so the part of
the horizon after the last sample was lost, and stale samples survived between passes.
---
 src/signal_expr.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 1089e80..551f143 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -21,14 +21,17 @@ double abs_transducer::compute_robustness() {
 	// update child robustness
 	child->compute_robustness();
 
+	z.clear();
 	auto iter = child->z.begin();
 	
 	for (; iter != child->z.end();
 			iter++) {
 		double t= (*iter).time;
 		double v = (*iter).value;
-		z.appendSample(t, fabs(v));
+		double d = (*iter).derivative;
+		z.appendSample(t, fabs(v), v<0.||(v==0.&&d<0.) ? -d : d);
 	}
+	z.endTime = child->z.endTime;
 	return z.front().value;
 }
 
@@ -41,6 +44,7 @@ double plus_transducer::compute_robustness() {
 	childL->compute_robustness();
 	childR->compute_robustness();
 
+	z.clear();
 	auto iterL = childL->z.begin();
 	auto iterR = childR->z.begin();
 
@@ -49,8 +53,11 @@ double plus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL+vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL+vR, dL+dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -59,6 +66,7 @@ double minus_transducer::compute_robustness() {
 	childL->compute_robustness();
 	childR->compute_robustness();
 
+	z.clear();
 	auto iterL = childL->z.begin();
 	auto iterR = childR->z.begin();
 
@@ -67,8 +75,11 @@ double minus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL-vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL-vR, dL-dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -77,6 +88,7 @@ double mult_transducer::compute_robustness() {
 	childL->compute_robustness();
 	childR->compute_robustness();
 
+	z.clear();
 	auto iterL = childL->z.begin();
 	auto iterR = childR->z.begin();
 
@@ -85,8 +97,11 @@ double mult_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL*vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL*vR, dL*vR+vL*dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
-- 
2.43.0


From e4dd4a01c3b6d239b52a7e5443b66571ac8f286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 03/49] fix: unknown upper bound is +inf, not -inf

transducer::compute_upper_rob answered BOTTOM when nothing is known yet.
---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..76a3f7f 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From de8bb1aa0f892129148bbfd0ae0c4cfc6a2f3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 04/49] fix: compare known horizon with absolute time in
 bounded operators

ev_/alw_ bounds compared the end time of the operand with the relative bound a, although
evaluation can start later than 0.
---
 src/interval_transducer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 76a3f7f..31682e4 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -163,7 +163,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_lower_rob();
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a) {
             z_low.appendSample(start_time, BOTTOM); 
             return BOTTOM;
         }
@@ -197,7 +197,7 @@ namespace STLRom {
 
         child->compute_upper_rob();
 
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -234,7 +234,7 @@ namespace STLRom {
 
         child->compute_lower_rob();
 
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a) {
             z_low.appendSample(start_time,BOTTOM);        
             return BOTTOM;
         }
@@ -268,7 +268,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_upper_rob();
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
-- 
2.43.0


From d9129cb23b6e19ed10814db8d859bbdd6e34dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 05/49] fix: online bounds of until on partial data

The lower/upper bound of until returned without setting its signal when nothing was known,
used the wrong horizon, and its robustness was cut at time 0 instead of the evaluated window.
---
 src/interval_transducer.cpp | 39 ++++++++++++++++++++++++-------------
 src/transducer.cpp          |  3 ++-
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 31682e4..8a1f3f3 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,18 +297,22 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        double low = min(childL->compute_lower_rob(), childR->compute_lower_rob());
+
+        // nothing known yet about the times when the right-hand side can hold
+        if (low==BOTTOM || min(childL->z_low.endTime, childR->z_low.endTime) < start_time + a) {
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
         z_low.resize(start_time,max(start_time,et),0.);
-        
-        
+
         if (z_low.empty())
-            return BOTTOM;
-        else
-            return z_low.front().value;
+            z_low.appendSample(start_time, BOTTOM);
+
+        return z_low.front().value;
 
     }
 
@@ -318,17 +322,24 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        double up = max(childL->compute_upper_rob(), childR->compute_upper_rob());
+
+        // nothing known yet about the times when the right-hand side can hold
+        if (up==TOP || min(childL->z_up.endTime, childR->z_up.endTime) < start_time + a) {
+            z_up.appendSample(start_time, TOP);
+            return TOP;
+        }
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        double et =min(z_up.endTime-b,end_time);
-        z_up.resize(start_time,max(start_time,et),0.);
+
+        // Here we remove values computed with partial data
+        double et =min(z_up.endTime-b+a,end_time);
+        z_up.resize(start_time,et,0.);
 
         if (z_up.empty())
-            return TOP;
-        else
-            return z_up.front().value;
+            z_up.appendSample(start_time, TOP);
+
+        return z_up.front().value;
     }
 
 }
diff --git a/src/transducer.cpp b/src/transducer.cpp
index dae6f67..699ac8e 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -281,7 +281,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        z.resize(0.,z.endTime,0.);
+        double et = min(z.endTime,end_time);
+        z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
 
-- 
2.43.0


From 6513cfa93848e02992008e66d605301d9129c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 06/49] fix: durations in compute_timed_until are relative to
 the begin time

---
 src/robustness.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..c5462c7 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -384,12 +384,12 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime))
+	if(b > std::min(y1.endTime, y2.endTime) - y1.beginTime)
 	{
 		if (a==0)
 			yunt = computeUntil(&y1,&y2);
 		else
-			if (a > y1.endTime) {
+			if (a > y1.endTime - y1.beginTime) {
 				yunt = computeGlobally(&y1);
 			}
 			else
-- 
2.43.0


From d20ca3c9447d1a0baeb3f2376e6339034cca68da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 07/49] fix: do not read past the end of a signal in boolean
 and window operators

compute_and/or/until walked before rend() and plateau filters past end() when no sample lies
in the evaluated window.
---
 src/robustness.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index c5462c7..250a458 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -204,9 +204,9 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
-	while (i->time >= endTime)
+	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
-	while (j->time >= endTime)
+	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
 	s = beginTime;
@@ -441,7 +441,7 @@ void Signal::compute_plateau_max(const Signal &x, double a) {
 	//INIT: read values in [0, a)
 	i = y.begin();
 
-	while (i->time < x.beginTime + a) {
+	while (i != y.end() && i->time < x.beginTime + a) {
 		while (!M.empty() && i->value >= M.back().value) {
 			M.pop_back();
 		}
@@ -451,7 +451,7 @@ void Signal::compute_plateau_max(const Signal &x, double a) {
 		i++;
 	}
 
-	if (i->time == x.beginTime + a)
+	if (i != y.end() && i->time == x.beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
@@ -560,14 +560,14 @@ void Signal::compute_plateau_min(const Signal &x, double a) {
 
 	//INIT: read values in [0, a)
 	i = y.begin();
-	while (i->time < x.beginTime + a) {
+	while (i != y.end() && i->time < x.beginTime + a) {
 		while (!M.empty() && i->value <= M.back().value) {
 			M.pop_back();
 		}
 		M.push_back(*i);
 		i++;
 	}
-	if (i->time == x.beginTime + a)
+	if (i != y.end() && i->time == x.beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
@@ -679,9 +679,9 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
@@ -714,9 +714,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 
@@ -806,9 +806,9 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	s = z->beginTime;
@@ -1305,7 +1305,7 @@ Signal * plateauMax(Signal * x, double a) {
 	//INIT: read values in [0, a)
 	i = y.begin();
 
-	while (i->time < x->beginTime + a) {
+	while (i != y.end() && i->time < x->beginTime + a) {
 		while (!M.empty() && i->value >= M.back().value) {
 			M.pop_back();
 		}
@@ -1319,7 +1319,7 @@ Signal * plateauMax(Signal * x, double a) {
 	cout << "M:" << M << endl;
 	#endif
 	
-	if (i->time == x->beginTime + a)
+	if (i != y.end() && i->time == x->beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
@@ -1477,14 +1477,14 @@ Signal * plateauMin(Signal * x, double a) {
 
 	//INIT: read values in [0, a)
 	i = y.begin();
-	while (i->time < x->beginTime + a) {
+	while (i != y.end() && i->time < x->beginTime + a) {
 		while (!M.empty() && i->value <= M.back().value) {
 			M.pop_back();
 		}
 		M.push_back(*i);
 		i++;
 	}
-	if (i->time == x->beginTime + a)
+	if (i != y.end() && i->time == x->beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
-- 
2.43.0


From aad67fb12dc9b2fd3db7719d7947778b52d4d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 08/49] fix: wrong end iterator in right-time robustness

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 250a458..392ae86 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -90,7 +90,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From 5378452e0b64e75d5516a8d1d34a777a3741b455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 09/49] fix: boolean abstraction at a single instant and at
 zero with positive slope

compute_boolean dropped the only sample of a signal that spans one instant, leaving it empty.
---
 src/robustness.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 392ae86..03d3337 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -30,7 +30,7 @@ void Signal::compute_boolean(const Signal &y) {
 		else 
 			next_time = next_i->time;
 		
-		if (v>0.) {
+		if (v>0. || (v==0. && d>0.)) {
 			push_back(Sample(i->time, 1. , 0.));
 			if (d<0.) {
 				double t_zero_cross = i->time-v/d;
@@ -48,7 +48,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	if (size() > 1 && back().time == endTime) {
 		pop_back();
 	}
 }
-- 
2.43.0


From ca72ccf5ba895fb7452714b4d4c26efd0c428ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 10/49] fix: keep the slope when a signal is cut inside its
 last segment

---
 src/signal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..092fb90 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,7 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                push_front(Sample(s, first.valueAt(s), s < endTime ? first.derivative : 0));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From 8c33c0ccd0aa97e4af5050058500097739456706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 11/49] fix: clamp segment crossing times to the segment

Rounding on nearly parallel segments gave crossing times outside the segment, or NaN values.
---
 src/robustness.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 03d3337..5d80974 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -929,6 +929,15 @@ Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
  *                         CONJUNCTION SUBROUTINES                           *
  *---------------------------------------------------------------------------*/
 
+// time at which segments x and y meet, given that they do so between s and t: rounding
+// errors (e.g. nearly parallel segments) must not move it out of [s, t]
+static double crossingTime(const Sample & x, const Sample & y, double s, double t) {
+	double c = x.timeIntersect(y);
+	if (!(c > s))
+		return s;
+	return (c < t) ? c : t;
+}
+
 //PRECONDITIONS: j->time < t, i.time < t.
 //POSTCONDITIONS: j->time <= i.time.
 void computeSegmentAnd(Signal * z, const Sample & i, double t,
@@ -940,7 +949,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) < j->valueAt(t)) {
 			if (i.valueAt(s) > j->value) {
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -960,7 +969,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -983,7 +992,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) < j->valueAt(t)) {
 		if (i.value > j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1003,7 +1012,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -1051,7 +1060,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) > j->valueAt(t)) {
 			if (i.valueAt(s) < j->value) {
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -1071,7 +1080,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1094,7 +1103,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) > j->valueAt(t)) {
 		if (i.value < j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1114,7 +1123,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
-- 
2.43.0


From 25efc1fd68445d350de77fc4d27d5176ffea1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 12/49] fix: keep the value at the last instant in and/or/until

The value at the end of the window (e.g. a step exactly there) was lost.
---
 src/robustness.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 5d80974..ad58981 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -15,6 +15,20 @@ using namespace std;
 
 namespace STLRom { 
 
+// value of x at time t, at or after its last sample
+static double valueAtEnd(const Signal & x, double t) {
+	auto i = x.rbegin();
+	while (i->time > t && i != x.rend()-1)
+		i++;
+	return i->valueAt(t);
+}
+
+// the last instant of a signal has a value of its own when a sample lies there
+static void addEndValue(Signal * z, double v) {
+	if (z->endTime > z->beginTime)
+		z->push_back(Sample(z->endTime, v, 0.));
+}
+
 void Signal::compute_boolean(const Signal &y) {
 	clear();
 	beginTime = y.beginTime;
@@ -129,6 +143,7 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 		j++;
 
 	computePartialAnd(this, i, j, this->beginTime, this->endTime);
+	addEndValue(this, fmin(valueAtEnd(x, endTime), valueAtEnd(y, endTime)));
 	simplify();
 
 }
@@ -148,6 +163,7 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 		j++;
 
 	computePartialOr(this, i, j, beginTime, endTime);
+	addEndValue(this, fmax(valueAtEnd(x, endTime), valueAtEnd(y, endTime)));
 	simplify();
 
 }
@@ -211,6 +227,8 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 
 	s = beginTime;
 	t = endTime;
+	const double z_end = fmin(valueAtEnd(x, t), valueAtEnd(y, t));
+	z_max = z_end;
 
 	while (i->time > s) {
 
@@ -229,6 +247,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 		computeSegmentUntil(this, Sample(s, i->valueAt(s), i->derivative), t, j,
 				z_max);
 
+	addEndValue(this, z_end);
 	simplify();
 
 #ifdef DEBUG__
@@ -685,6 +704,7 @@ Signal * computeAnd(Signal * x, Signal * y) {
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
+	addEndValue(z, fmin(valueAtEnd(*x, z->endTime), valueAtEnd(*y, z->endTime)));
 	z->simplify();
 
 	return z;
@@ -726,6 +746,7 @@ Signal * computeOr(Signal * x, Signal * y) {
 
 
 	computePartialOr(z, i, j, z->beginTime, z->endTime);
+	addEndValue(z, fmax(valueAtEnd(*x, z->endTime), valueAtEnd(*y, z->endTime)));
 	z->simplify();
 
 #ifdef DEBUG__
@@ -813,6 +834,8 @@ Signal * computeUntil(Signal * x, Signal * y) {
 
 	s = z->beginTime;
 	t = z->endTime;
+	const double z_end = fmin(valueAtEnd(*x, t), valueAtEnd(*y, t));
+	z_max = z_end;
 
 	while (i->time > s) {
 
@@ -831,6 +854,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 		computeSegmentUntil(z, Sample(s, i->valueAt(s), i->derivative), t, j,
 				z_max);
 
+	addEndValue(z, z_end);
 	z->simplify();
 
 #ifdef DEBUG__
-- 
2.43.0


From cebd4b73f313e0a8dd2694d28cdf8e879f384a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 13/49] fix: implies aligns the end times of its operands like
 and/or

---
 src/transducer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index 699ac8e..f86c0a1 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -264,6 +264,8 @@ namespace STLRom {
         Signal z1= childL->z;
         Signal z2= childR->z;
         double et = max(z1.endTime, z2.endTime);
+        z1.endTime = et;
+        z2.endTime = et;
 
         z.compute_implies(z1,z2);
 
-- 
2.43.0


From e23fdf85ac5b1f3b3546217914f8fa710b485860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 14/49] fix: simplify keeps sample order when several samples
 share a time

---
 src/signal.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 092fb90..c03833c 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,10 +124,15 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        // go once through all samples (several of them may be at beginTime)
+        auto nb_left = size() - 1;
         push_back(front());
         pop_front();
-        while (front().time != beginTime) {
-            if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
+        while (nb_left-- > 0) {
+            if (back().time == front().time) {
+                back() = front();  // back() spans no time
+            }
+            else if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
                 push_back(front());
             }
             pop_front();
-- 
2.43.0


From 3f2015aa957bca64ac0c2183ad1c67e61245a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 15/49] fix: crossing time in eventually is relative to the
 segment start

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index ad58981..ab5cb06 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1249,7 +1249,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From 996def37f41945bbebb0fa3b06403bfa3cfa7ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 16/49] fix: free the semantic values the parser consumes or
 discards

Operators, constants, parameter lists and test formulas leaked, on success or on syntax errors,
and so did the previous formula when an identifier was assigned twice in one text.
---
 src/stl_parser.cpp | 52 +++++++++++++++++++++++++++++++++++++++++++---
 src/stl_parser.ypp | 12 +++++++----
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 6d20775..2c273f0 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -411,7 +411,14 @@ namespace STLRom {
     // User destructor.
     switch (yysym.type_get ())
     {
-            case 31: // "param_id"
+            case 30: // "constant"
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+#line 419 "stl_parser.cpp" // lalr1.cc:617
+        break;
+
+      case 31: // "param_id"
 
 #line 129 "stl_parser.ypp" // lalr1.cc:617
         { delete (yysym.value.stringVal); }
@@ -453,6 +460,13 @@ namespace STLRom {
 #line 454 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 42: // constant
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+#line 461 "stl_parser.cpp" // lalr1.cc:617
+        break;
+
       case 43: // constant_signal
 
 #line 132 "stl_parser.ypp" // lalr1.cc:617
@@ -509,6 +523,13 @@ namespace STLRom {
 #line 510 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 51: // op
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+#line 517 "stl_parser.cpp" // lalr1.cc:617
+        break;
+
       case 52: // interval
 
 #line 130 "stl_parser.ypp" // lalr1.cc:617
@@ -523,6 +544,27 @@ namespace STLRom {
 #line 524 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 60: // local_param_assignement
+
+#line 130 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+#line 531 "stl_parser.cpp" // lalr1.cc:617
+        break;
+
+      case 61: // local_param_assignement_list
+
+#line 130 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+#line 538 "stl_parser.cpp" // lalr1.cc:617
+        break;
+
+      case 62: // local_param_assignements
+
+#line 130 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+#line 545 "stl_parser.cpp" // lalr1.cc:617
+        break;
+
 
       default:
         break;
@@ -933,7 +975,7 @@ namespace STLRom {
   case 18:
 #line 268 "stl_parser.ypp" // lalr1.cc:859
     {
-              (yylhs.value.transducer_ptr) = new stl_atom((yystack_[2].value.transducer_ptr), *(yystack_[1].value.stringVal), (yystack_[0].value.transducer_ptr));
+              (yylhs.value.transducer_ptr) = new stl_atom((yystack_[2].value.transducer_ptr), *(yystack_[1].value.stringVal), (yystack_[0].value.transducer_ptr)); delete (yystack_[1].value.stringVal);
               (yylhs.value.transducer_ptr)->trace_data_ptr = &driver.data;
               (yylhs.value.transducer_ptr)->param_map = driver.param_map;
               (yylhs.value.transducer_ptr)->signal_map = driver.signal_map;
@@ -1096,6 +1138,7 @@ namespace STLRom {
   case 33:
 #line 379 "stl_parser.ypp" // lalr1.cc:859
     {
+                delete driver.formula_map[*(yystack_[2].value.stringVal)];  // redefinition
                 driver.formula_map[*(yystack_[2].value.stringVal)] = (yystack_[0].value.transducer_ptr);
                 delete (yystack_[2].value.stringVal);
             }
@@ -1108,6 +1151,7 @@ namespace STLRom {
              double x;
              driver.add_trace_test(*(yystack_[2].value.stringVal), *(yystack_[0].value.stringVal), 0., false);
              delete (yystack_[2].value.stringVal);
+             delete (yystack_[0].value.stringVal);
          }
 #line 1113 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1196,9 +1240,10 @@ namespace STLRom {
   case 46:
 #line 459 "stl_parser.ypp" // lalr1.cc:859
     {
-    (yylhs.value.param_map_ptr) = new map<string,double>(*(yystack_[2].value.param_map_ptr));
+    (yylhs.value.param_map_ptr) = (yystack_[2].value.param_map_ptr);
     auto elem = (yystack_[0].value.param_map_ptr)->begin();
     (*(yylhs.value.param_map_ptr))[elem->first] = elem->second;
+    delete (yystack_[0].value.param_map_ptr);
 }
 #line 1204 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1243,6 +1288,7 @@ namespace STLRom {
             driver.add_stl_test(*(yystack_[10].value.stringVal), *(yystack_[9].value.param_map_ptr), (yystack_[7].value.transducer_ptr), *(yystack_[5].value.stringVal), *(yystack_[3].value.stringVal), (yystack_[1].value.boolVal) );
             delete (yystack_[10].value.stringVal);
             delete (yystack_[9].value.param_map_ptr);
+            delete (yystack_[7].value.transducer_ptr);
             delete (yystack_[5].value.stringVal);
             delete (yystack_[3].value.stringVal);
         }
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 259d78f..6b7d52e 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -126,8 +126,8 @@ using namespace STLRom;
 %type <boolVal>        boolean
 %type <param_map_ptr>  local_param_assignements local_param_assignement_list local_param_assignement
 
-%destructor { delete $$; } STRING PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
-%destructor { delete $$; } interval
+%destructor { delete $$; } STRING PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID CONSTANT op constant
+%destructor { delete $$; } interval local_param_assignements local_param_assignement_list local_param_assignement
 %destructor { delete $$; } stl_atom stl_formula signal signal_atom
 %destructor { delete $$; } signal_expr constant_signal signal_addexpr signal_multexpr signal_unaryexpr
 
@@ -266,7 +266,7 @@ signal_expr : signal_addexpr
 
 stl_atom : signal_expr op signal_expr
           {
-              $$ = new stl_atom($1, *$2, $3);
+              $$ = new stl_atom($1, *$2, $3); delete $2;
               $$->trace_data_ptr = &driver.data;
               $$->param_map = driver.param_map;
               $$->signal_map = driver.signal_map;
@@ -377,6 +377,7 @@ stl_formula :
 
 assignement : NEW_ID ASSIGN stl_formula
             {
+                delete driver.formula_map[*$1];  // redefinition
                 driver.formula_map[*$1] = $3;
                 delete $1;
             }
@@ -386,6 +387,7 @@ trace_env: TEST NEW_ID ':' STRING
              double x;
              driver.add_trace_test(*$2, *$4, 0., false);
              delete $2;
+             delete $4;
          }
          | TEST NEW_ID ':' STRING COMMA CONSTANT COMMA boolean  /* test id: environment, simulation time, visualization  */
          {
@@ -457,9 +459,10 @@ local_param_assignement: PARAM_ID '=' CONSTANT
 local_param_assignement_list: local_param_assignement
                             | local_param_assignement_list COMMA local_param_assignement
 {
-    $$ = new map<string,double>(*$1);
+    $$ = $1;
     auto elem = $3->begin();
     (*$$)[elem->first] = elem->second;
+    delete $3;
 }
 
 local_param_assignements: /* empty */
@@ -494,6 +497,7 @@ stl_test: NEW_ID  local_param_assignements '{'  stl_formula COMMA  STRING COMMA
             driver.add_stl_test(*$1, *$2, $4, *$6, *$8, $10 );
             delete $1;
             delete $2;
+            delete $4;
             delete $6;
             delete $8;
         }
-- 
2.43.0


From 0e67f89accd86114c811a4f324e53e579a5978cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 17/49] fix: bounds-check the columns of the trace

Reading a signal declared after samples were added (or a short row assigned to data) read past the
end of the row; it now throws out_of_range like an empty trace does.
---
 src/stl_atom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 8c20af5..5bac26d 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -85,8 +85,8 @@ namespace STLRom {
             
         if (i) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
-                t = (trace_data_ptr->at(td_idx))[0];
-                v = (trace_data_ptr->at(td_idx))[i];
+                t = trace_data_ptr->at(td_idx).at(0);
+                v = trace_data_ptr->at(td_idx).at(i);
                 // cout << "t: " << t << " v: " << v << endl;
                 z.appendSample(t, v);
                 td_idx++;
@@ -129,7 +129,7 @@ namespace STLRom {
         td_idx = 0;
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
-            t = (trace_data_ptr->at(td_idx))[0];
+            t = trace_data_ptr->at(td_idx).at(0);
             z.appendSample(t, value);
             td_idx++;
         }
-- 
2.43.0


From 6bea7688e7ff4ce75b8c3293b06f56527320761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 18/49] fix: leak in computeTimedUntil

---
 src/robustness.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index ab5cb06..8bf97c4 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -927,8 +927,6 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	Signal *z, *z2, *z3, *z4;
 
-	z = new Signal();
-
 	z2 = computeBoundedEventually(y, b - a);
 
 	z3 = computeUntil(x, y);
-- 
2.43.0


From a8f7cc2826fd266c17f128e65a8346039189f901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 19/49] fix: tests queued in the driver own their formula

stl_test copies shared the formula that each of them deletes, so clear(), re-using a test or copying
a driver freed it twice.
---
 include/stl_driver.h | 28 ++++++++++++++++++++++++++--
 src/stl_driver.cpp   | 26 +-------------------------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 34df455..3b5ea06 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -38,6 +38,30 @@ namespace STLRom
                                                             is_error(_is_err) {
                                                             };
 
+        // a test owns its formula
+        stl_test(const stl_test &other) : test_id(other.test_id),
+                                          param_map(other.param_map),
+                                          formula(other.formula ? other.formula->clone() : nullptr),
+                                          report_positive(other.report_positive),
+                                          report_negative(other.report_negative),
+                                          is_error(other.is_error) {
+                                          };
+
+        stl_test &operator=(const stl_test &other)
+        {
+            if (this != &other)
+            {
+                delete formula;
+                formula = other.formula ? other.formula->clone() : nullptr;
+                test_id = other.test_id;
+                param_map = other.param_map;
+                report_positive = other.report_positive;
+                report_negative = other.report_negative;
+                is_error = other.is_error;
+            }
+            return *this;
+        }
+
         ~stl_test()
         {
             delete formula;
@@ -262,7 +286,7 @@ namespace STLRom
         inline transducer *get_next_formula() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return trace_test_queue.front().tests.front().formula;
             else
                 return nullptr;
@@ -271,7 +295,7 @@ namespace STLRom
         inline const stl_test *get_next_stl_test() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return &(trace_test_queue.front().tests.front());
             else
                 return nullptr;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..7099e6b 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -206,30 +206,11 @@ namespace STLRom
 			}
 		}
 
-		for (auto stest = stl_test_map.begin(); stest != stl_test_map.end(); stest++)
-		{
-			if (stest->second.formula != 0)
-			{
-				delete stest->second.formula;
-				stest->second.formula = 0;
-			}
-		}
-
 		formula_map.clear();
 		param_map.clear();
 		stl_test_map.clear();
 
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
+		trace_test_queue.clear();
 		report.clear();
 		test_log.clear();
 		error_flag = false;
@@ -402,7 +383,6 @@ namespace STLRom
 			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
 			{
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
@@ -428,7 +408,6 @@ namespace STLRom
 				//				cout << endl;
 
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map = local_param_map;
 			}
 		}
@@ -451,10 +430,7 @@ namespace STLRom
 			//			cout << endl;
 
 			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
 			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
 		}
 	}
 
-- 
2.43.0


From 9219de5c836e6eb0fa79925082d43429d335c99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 20/49] fix: run_tests and dump evaluate with the driver's
 data, parameters and semantics

Only the root of the formula got the data, parameters (including those given to the test) were
ignored, and run_tests popped an empty queue.
---
 src/stl_driver.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 7099e6b..63dd40b 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -269,11 +269,14 @@ namespace STLRom
 	void STLDriver::dump()
 	{
 
-		// transducer::param_map = param_map; FIXME
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
 
 		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
 		{
-			formula->second->trace_data_ptr = &data;
+			formula->second->set_trace_data_ptr(data);
+			formula->second->set_param_map_ptr(param_map);
+			formula->second->reset();
 			formula->second->init_horizon();
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
@@ -294,19 +297,19 @@ namespace STLRom
 
 			report.append("stl_test " + trace_test_queue.front().id + "\n");
 
-			// Initialize global parameters
-			// transducer->param_map =  param_map; FIXME
-
 			while (formula != nullptr)
 			{
 
-				// initialize local parameters FIXME
-				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
-				//	transducer->param_map[elem->first] = elem->second;
-				//}
+				// global parameters, overridden by those of the test
+				map<string, double> params(curr_test->param_map);
+				params.insert(param_map.begin(), param_map.end());
 
-				formula->trace_data_ptr = &data;
-				formula->init_horizon();
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(params);
+				Signal::semantics = semantics;
+				Signal::interpol = interpol;
+				formula->reset();
+				formula->set_horizon(0., 0.);
 				double rob = formula->compute_robustness();
 
 				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
@@ -328,14 +331,13 @@ namespace STLRom
 						report += indent + curr_test->report_negative + "\n";
 				}
 
-				// delete formula;
 				trace_test_queue.front().tests.pop_front();
 				formula = get_next_formula();
 				curr_test = get_next_stl_test();
 			}
+			report += "\n";
+			trace_test_queue.pop_front();
 		}
-		report += "\n";
-		trace_test_queue.pop_front();
 		return error_flag;
 	}
 
-- 
2.43.0


From e37205062f77a94cb0bce444c080b30d58dcc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 21/49] fix: multiplication binds tighter than addition and
 subtraction

a*x[t] + b*y[t] was parsed as (a*x[t] + b)*y[t]. The tables are those bison generates for the new
rules; nothing else of the generated parser changes.
---
 include/stl_parser.h |  2 +-
 src/stl_parser.cpp   | 88 ++++++++++++++++++++++----------------------
 src/stl_parser.ypp   |  6 +--
 3 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/include/stl_parser.h b/include/stl_parser.h
index 3818c79..25b881e 100644
--- a/include/stl_parser.h
+++ b/include/stl_parser.h
@@ -506,7 +506,7 @@ namespace STLRom {
     enum
     {
       yyeof_ = 0,
-      yylast_ = 136,     ///< Last index in yytable_.
+      yylast_ = 134,     ///< Last index in yytable_.
       yynnts_ = 29,  ///< Number of nonterminal symbols.
       yyfinal_ = 22, ///< Termination state number.
       yyterror_ = 1,
diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 2c273f0..fe79cee 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -1572,20 +1572,20 @@ namespace STLRom {
   const signed char
   Parser::yypact_[] =
   {
-     -16,    -4,    38,   -20,    41,   -84,    28,   -84,   -84,   -84,
-       2,    26,    48,   -84,    75,   -84,   -84,   -84,    83,    54,
-      25,    12,   -84,   -84,   -84,   -84,    71,    72,    -4,    38,
-      67,    25,    25,   101,   101,   100,   -84,   -84,   -84,   103,
-     -84,   -84,   -84,   -84,   -84,    74,    27,   -84,    78,   102,
-     102,   -84,   -19,   -84,   -84,   -84,   -84,    91,    45,    64,
-      10,    47,    25,    25,    35,    93,    19,    19,    19,   -84,
-     -84,    35,    25,    25,    25,   101,    30,    73,   -84,   -84,
-     -84,    80,   -84,   -84,   -84,   -84,   -11,   -84,   -84,    35,
-     105,   109,   -84,   -84,   -84,   -84,     0,     0,     0,    25,
-      76,    77,   -84,     1,    25,    99,    47,   113,   112,   -84,
-     -84,   -84,    89,    90,   -84,    30,    70,    56,   117,   -84,
-     -84,   -84,   -84,    86,   -84,   -84,   -84,   -84,   106,    88,
-     108,    56,    87,   -84
+     -16,     3,    19,   -20,    10,   -84,   -17,   -84,   -84,   -84,
+       2,     9,    23,   -84,    47,   -84,   -84,   -84,    50,    44,
+      25,    41,   -84,   -84,   -84,   -84,    56,    58,     3,    19,
+      62,    25,    25,    94,    94,    95,   -84,   -84,   -84,    96,
+     -84,   -84,   -84,   -84,    79,    69,    75,   -84,    68,    97,
+      97,   -84,   -19,   -84,   -84,   -84,   -84,    86,    18,    39,
+      48,    61,    25,    25,    35,    88,    35,    35,    35,   -84,
+     -84,    35,    25,    25,    25,    94,    54,    67,   -84,   -84,
+     -84,    77,   -84,   -84,   -84,   -84,   -11,   -84,   -84,    35,
+      99,   104,   -84,    79,    79,   -84,     0,     0,     0,    25,
+      71,    72,   -84,     1,    25,    98,    61,   107,   106,   -84,
+     -84,   -84,    83,    84,   -84,    54,    60,    66,   112,   -84,
+     -84,   -84,   -84,    81,   -84,   -84,   -84,   -84,   101,    85,
+     102,    66,    80,   -84
   };
 
   const unsigned char
@@ -1600,7 +1600,7 @@ namespace STLRom {
       24,     0,     0,     0,     0,     0,     0,     0,     0,    19,
       20,     0,     0,     0,     0,     0,     0,     0,    55,    58,
       56,     0,     9,    31,     2,     3,     0,    29,    28,     0,
-       0,     0,    15,    16,    13,    18,    25,    26,    27,     0,
+       0,     0,    13,    15,    16,    18,    25,    26,    27,     0,
        0,     0,    45,     0,     0,     0,     0,     0,     0,    11,
        6,    30,     0,     0,    48,     0,     0,     0,     0,    22,
       43,    44,    46,     0,    36,    37,    35,    21,     0,     0,
@@ -1610,9 +1610,9 @@ namespace STLRom {
   const signed char
   Parser::yypgoto_[] =
   {
-     -84,   -83,   -84,   -84,    31,   -84,   -84,   -84,   -27,   -84,
-     -84,   -29,   -31,   116,   -84,    -3,   104,   -84,   119,    15,
-     -84,    81,   107,   -84,   -84,    82,   -84,   123,   -84
+     -84,   -83,   -84,   -84,   -84,    57,    28,   -84,   -27,   -84,
+     -84,   -29,   -31,   114,   -84,    -9,   100,   -84,   115,    11,
+     -84,    82,   105,   -84,   -84,    78,   -84,   117,   -84
   };
 
   const signed char
@@ -1628,18 +1628,18 @@ namespace STLRom {
   {
       59,    60,    22,   107,    58,    63,   106,   114,     1,     2,
        3,    73,    74,    19,    49,    75,    50,     4,   115,    84,
-      85,    79,    74,   118,    89,    75,     1,    11,     3,    12,
-      31,    87,    88,    32,    69,     4,    70,    90,    33,    34,
-      89,    96,    97,    98,    95,    49,    99,    50,    35,    36,
-      37,    82,    69,    39,    70,    36,    37,    38,    35,    39,
-      20,   100,   108,   101,    26,    36,    37,    21,   111,    39,
-      83,    15,    16,   116,    72,    73,    74,    84,    85,    75,
-      72,    73,    74,   124,   125,    75,    27,   123,    72,    73,
-      74,    30,    28,    75,    66,    67,    68,    92,    93,    94,
-      29,    53,    54,    57,    61,    64,    65,    76,    81,    91,
-     105,   109,   104,   110,   112,   113,   117,   119,    82,   120,
-     121,   127,   128,   129,   130,   131,    23,   133,   132,    24,
-     122,    78,    55,    25,    80,     0,    56
+      85,    79,    21,   118,    82,    69,     1,    70,     3,    20,
+      31,    87,    88,    32,    11,     4,    12,    90,    33,    34,
+      89,    96,    97,    98,    95,    83,    99,    26,    35,    72,
+      73,    74,    15,    16,    75,    36,    37,    38,    35,    39,
+      74,    27,   108,    75,    28,    36,    37,    29,   111,    39,
+      72,    73,    74,   116,    49,    75,    50,   123,    72,    73,
+      74,    30,    69,    75,    70,   100,    53,   101,    54,    67,
+      68,    84,    85,   124,   125,    93,    94,    61,    57,    65,
+      64,    66,    76,    81,    91,   109,   104,   105,   110,   112,
+     113,   119,    82,   120,   121,   117,   127,   128,   129,   131,
+     133,   130,   132,    92,    23,    24,   122,    25,    55,     0,
+      80,     0,    78,     0,    56
   };
 
   const short int
@@ -1647,18 +1647,18 @@ namespace STLRom {
   {
       31,    32,     0,    86,    31,    34,    17,     6,    24,    25,
       26,    11,    12,    33,    33,    15,    35,    33,    17,    30,
-      31,    40,    12,   106,     5,    15,    24,    31,    26,    33,
-       5,    62,    63,     8,     7,    33,     9,    64,    13,    14,
-       5,    72,    73,    74,    71,    33,    75,    35,    23,    30,
-      31,     6,     7,    34,     9,    30,    31,    32,    23,    34,
-      19,    31,    89,    33,    38,    30,    31,    39,    99,    34,
-       6,    33,    34,   104,    10,    11,    12,    30,    31,    15,
-      10,    11,    12,    27,    28,    15,    38,    17,    10,    11,
-      12,    37,    17,    15,    20,    21,    22,    66,    67,    68,
-      17,    30,    30,    36,     3,     5,     3,     5,    17,    16,
-      30,     6,    39,     4,    38,    38,    17,     4,     6,    30,
-      30,     4,    36,    17,    36,    17,    10,    40,   131,    10,
-     115,    50,    28,    10,    52,    -1,    29
+      31,    40,    39,   106,     6,     7,    24,     9,    26,    19,
+       5,    62,    63,     8,    31,    33,    33,    64,    13,    14,
+       5,    72,    73,    74,    71,     6,    75,    38,    23,    10,
+      11,    12,    33,    34,    15,    30,    31,    32,    23,    34,
+      12,    38,    89,    15,    17,    30,    31,    17,    99,    34,
+      10,    11,    12,   104,    33,    15,    35,    17,    10,    11,
+      12,    37,     7,    15,     9,    31,    30,    33,    30,    20,
+      21,    30,    31,    27,    28,    67,    68,     3,    36,     3,
+       5,    22,     5,    17,    16,     6,    39,    30,     4,    38,
+      38,     4,     6,    30,    30,    17,     4,    36,    17,    17,
+      40,    36,   131,    66,    10,    10,   115,    10,    28,    -1,
+      52,    -1,    50,    -1,    29
   };
 
   const unsigned char
@@ -1670,10 +1670,10 @@ namespace STLRom {
       37,     5,     8,    13,    14,    23,    30,    31,    32,    34,
       43,    44,    45,    46,    47,    48,    49,    50,    53,    33,
       35,    66,    67,    30,    30,    57,    63,    36,    49,    53,
-      53,     3,    52,    52,     5,     3,    20,    21,    22,     7,
+      53,     3,    52,    52,     5,     3,    22,    20,    21,     7,
        9,    51,    10,    11,    12,    15,     5,    62,    62,    40,
       66,    17,     6,     6,    30,    31,    42,    53,    53,     5,
-      49,    16,    45,    45,    45,    49,    53,    53,    53,    52,
+      49,    16,    46,    47,    47,    49,    53,    53,    53,    52,
       31,    33,    60,    61,    39,    30,    17,    42,    49,     6,
        4,    53,    38,    38,     6,    17,    53,    17,    42,     4,
       30,    30,    60,    17,    27,    28,    56,     4,    36,    17,
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 6b7d52e..45e7a18 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -228,7 +228,7 @@ signal_multexpr : signal_unaryexpr
         {
 	      $$ = $1;
 	    }
-        | signal_addexpr MULT signal_atom
+        | signal_multexpr MULT signal_unaryexpr
           {
 	      $$ = new mult_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
@@ -241,7 +241,7 @@ signal_addexpr : signal_multexpr
         {
 	      $$ = $1;
 	    }
-        | signal_addexpr PLUS signal_atom
+        | signal_addexpr PLUS signal_multexpr
           {
 	      $$ = new plus_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
@@ -249,7 +249,7 @@ signal_addexpr : signal_multexpr
           $$->signal_map = driver.signal_map;
 
           }
-        | signal_addexpr MINUS signal_atom
+        | signal_addexpr MINUS signal_multexpr
           {
 	      $$ = new minus_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
-- 
2.43.0


From 895f156153b2849062208b28c1ba057c10d93c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 22/49] fix: read_trace appended a value per trailing blank and
 dropped an unterminated last line

---
 src/tools.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index c14223e..0d6da22 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -115,15 +115,15 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	}
 
 	string line;
-	while (!std::getline(file, line, '\n').eof()) {
+	while (std::getline(file, line, '\n')) {
 		istringstream reader(line);
 		vector<double> lineData;
-		while (!reader.eof()) {
-			double val;
-			reader >> val;
+		double val;
+		while (reader >> val) {
 			lineData.push_back(val);
 		}
-		data.push_back(lineData);
+		if (!lineData.empty())
+			data.push_back(lineData);
 	}
 	file.close();
 	return true;
-- 
2.43.0


From 110fa9692d7b96a4c36af80b4121224aa862698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 23/49] fix: dump_trace_file rounded times and values to 6
 digits

---
 src/stl_driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 63dd40b..f394f5c 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -546,6 +546,7 @@ namespace STLRom
 		ofs.open(filename.c_str(), std::ofstream::out);
 		if (ofs.is_open())
 		{
+			ofs.precision(17); // enough to read back the same values
 			for (auto ii = data.begin(); ii != data.end(); ii++)
 			{
 				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
-- 
2.43.0


From 315c3c89cc87999857c416357842c35cf95a814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 24/49] fix: get_signals_names without signals read a
 zero-length array

---
 src/tools.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 0d6da22..4ad7765 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -45,7 +45,9 @@ string signal_map_to_string(map<string, int> signal_map)
 	// get number of signals
 		int n_signals = signal_map.size();
 		// cout << "n_signals:" << n_signals << endl;
-		string signames[n_signals];
+		if (n_signals == 0)
+			return "";
+		vector<string> signames(n_signals);
 
 		//     for (auto ii = signal_map->begin(); ii != signal_map->end(); ii++){
 		for (const auto &ii : signal_map)
-- 
2.43.0


From c1aaf7e36b71dcf80cb541ea72c8babdef68180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 25/49] fix: python finalizer freed drivers and monitors that
 pybind11 frees again

---
 src/pybind11/main.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index e369234..f110a74 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -137,7 +137,6 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__copy__", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__deepcopy__", [](const STLRom::STLMonitor &self, py::dict) { return STLRom::STLMonitor(self); })
-		.def("__del__", [](STLRom::STLMonitor *instance) { delete instance; }) // Bind the destructor
 
 		.def_readwrite("rob",&STLRom::STLMonitor::rob)
 		.def_readwrite("lower_rob",&STLRom::STLMonitor::lower_rob)
@@ -173,6 +172,5 @@ PYBIND11_MODULE(stlrom, m) {
 		.def_readwrite("data",&STLRom::STLDriver::data)
 		.def("copy", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__copy__", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
-		.def("__deepcopy__", [](const STLRom::STLDriver &self, py::dict) { return STLRom::STLDriver(self); })
-		.def("__del__", [](STLRom::STLDriver *instance) {delete instance; }); // Bind the destructor
+		.def("__deepcopy__", [](const STLRom::STLDriver &self, py::dict) { return STLRom::STLDriver(self); });
 }
-- 
2.43.0


From 108dd427002399332fb4c6bc57d7047998d701c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 26/49] fix: and, or and boolean abstraction of an empty signal
 dereferenced its samples

---
 src/robustness.cpp | 8 ++++++++
 src/signal.cpp     | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 8bf97c4..100d01f 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -131,6 +131,10 @@ void Signal::compute_not(const Signal &y) {
 void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	clear();
+	if (x.empty() || y.empty()) {
+		beginTime = endTime = 0.;
+		return;
+	}
 	auto i = x.rbegin();
 	auto j = y.rbegin();
 
@@ -151,6 +155,10 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 void Signal::compute_or(const Signal &x, const Signal &y) {
 
 	clear();
+	if (x.empty() || y.empty()) {
+		beginTime = endTime = 0.;
+		return;
+	}
 	Signal::const_reverse_iterator i = x.rbegin();
 	Signal::const_reverse_iterator j = y.rbegin();
 
diff --git a/src/signal.cpp b/src/signal.cpp
index c03833c..6d8356c 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,6 +124,9 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        if (empty())
+            return;
+
         // go once through all samples (several of them may be at beginTime)
         auto nb_left = size() - 1;
         push_back(front());
-- 
2.43.0


From b48e578e243678887ca078ddb7a3094c78489c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 27/49] fix: get_signal and print_monitor without formula
 dereferenced a null pointer

---
 include/stl_monitor.h | 2 +-
 src/pybind11/main.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 9cd3de0..da96375 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -247,7 +247,7 @@ namespace STLRom
 
         inline Signal get_signal() const
         {
-            return formula->get_signal();
+            return formula ? formula->get_signal() : Signal();
         }
 
         // display stuff
diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index f110a74..f01560a 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -49,7 +49,8 @@ void print_monitor(STLDriver& d) {
 	STLMonitor m = d.get_monitor("phi");
 	transducer* phi = m.formula;
 	os << "Monitor lower rob:" << m.lower_rob <<endl;
-	phi->print(os);
+	if (phi)
+		phi->print(os);
 	py::print(os.str());
 }
 
-- 
2.43.0


From 800317b9fe9bdca67ea8dad69d8ac75142f1f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 28/49] fix: get_BigM truncated the value to an integer

---
 include/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signal.h b/include/signal.h
index bd2639d..114a834 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -136,7 +136,7 @@ public:
 		BigM=val;
 	}
 
-	inline static int get_BigM(){
+	inline static double get_BigM(){
 		return BigM;
 	}
 
-- 
2.43.0


From c9be55d58d9d4359248075e232df5d052528104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 29/49] fix: evaluation at negative times

No sample was read when the evaluated window ends before time 0, and the empty signal was then
dereferenced.
---
 src/stl_atom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 5bac26d..52ad6ae 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -76,7 +76,7 @@ namespace STLRom {
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
         short i = signal_map[variable];
-        double t=0., v=0.;  
+        double t=-std::numeric_limits<double>::infinity(), v=0.;  
         double res= 0.;
 
         // (re)start from the first sample: a previous pass may have read part of the trace
@@ -122,7 +122,7 @@ namespace STLRom {
                 cout << "Parameter " << param << " not found (?)." << endl;                
         }
 
-        double t=0.;  
+        double t=-std::numeric_limits<double>::infinity();  
 
         // (re)start from the first sample: a previous pass may have read part of the trace
         z.clear();
-- 
2.43.0


From 7b00d5d16ffb38a29b96ffbe14531ccef8c67e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 30/49] fix: setting the horizon visited each operand twice,
 exponential in the nesting depth

set_horizon already calls init_horizon; a conjunction of some thirty atoms never finished.
---
 src/transducer.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index f86c0a1..8f23909 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -10,14 +10,11 @@ namespace STLRom {
 
     void unary_transducer::init_horizon() {
         child->set_horizon(start_time, end_time);
-        child->init_horizon();
     }
 
     void binary_transducer::init_horizon() {
         childL->set_horizon(start_time, end_time);
         childR->set_horizon(start_time, end_time);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     void timed_unary_transducer::init_horizon() {
@@ -29,7 +26,6 @@ namespace STLRom {
 
         // update start_time and end_time of child
         child->set_horizon(start_time+a,end_time+b);
-        child->init_horizon();
 
     }
 
@@ -42,8 +38,6 @@ namespace STLRom {
         // update start_time and end_time of children
         childL->set_horizon(start_time, end_time+b);
         childR->set_horizon(start_time+a, end_time+b);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     /* set param */
-- 
2.43.0


From 6656fcea448ee03b308df4c21a3beb55385a1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 31/49] fix: rounding of decimal times replaced values by the
 padding 0

---
 src/interval_transducer.cpp | 6 +++---
 src/robustness.cpp          | 4 ++--
 src/signal.cpp              | 5 +++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 8a1f3f3..20f9437 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -205,7 +205,7 @@ namespace STLRom {
         z_up.compute_timed_eventually(child->z_up, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_up.endTime-b+a,end_time);
+        double et =min(z_up.endTime-(b-a),end_time);
         z_up.resize(start_time,et, 0.);
 
         if (z_up.empty()) 
@@ -242,7 +242,7 @@ namespace STLRom {
         z_low.compute_timed_globally(child->z_low, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_low.endTime-b+a,end_time);
+        double et =min(z_low.endTime-(b-a),end_time);
         z_low.resize(start_time,et, 0.);
 	
         if (z_low.empty()) 
@@ -333,7 +333,7 @@ namespace STLRom {
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
 
         // Here we remove values computed with partial data
-        double et =min(z_up.endTime-b+a,end_time);
+        double et =min(z_up.endTime-(b-a),end_time);
         z_up.resize(start_time,et,0.);
 
         if (z_up.empty())
diff --git a/src/robustness.cpp b/src/robustness.cpp
index 100d01f..76cd150 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -411,12 +411,12 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime) - y1.beginTime)
+	if(y1.beginTime + b > std::min(y1.endTime, y2.endTime))
 	{
 		if (a==0)
 			yunt = computeUntil(&y1,&y2);
 		else
-			if (a > y1.endTime - y1.beginTime) {
+			if (y1.beginTime + a > y1.endTime) {
 				yunt = computeGlobally(&y1);
 			}
 			else
diff --git a/src/signal.cpp b/src/signal.cpp
index 6d8356c..9440756 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -189,8 +189,6 @@ namespace STLRom {
             if (empty()) {
                 //			cout << "push empty " << first << endl;
                 push_front(Sample(s, first.valueAt(s), s < endTime ? first.derivative : 0));
-                if (endTime < s)
-                    endTime = s;
             }
             else {
                 if (front().time > s)  {
@@ -199,6 +197,9 @@ namespace STLRom {
                 }
             }
         }
+        // no sample left after s, or an end time just before s because of rounding
+        if (endTime < s)
+            endTime = s;
         //trim or extend back of signal
         if(endTime < t) {
             //		cout << "push_back here" << endl;
-- 
2.43.0


From 9659237fd53abefec0b65772bb9dfb83ba697cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 32/49] fix: add_sample accepted a NaN time

---
 src/stl_driver.cpp  | 2 +-
 src/stl_monitor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index f394f5c..e123911 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -442,7 +442,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (!data.empty() && !(s[0] > data.back()[0])) // NaN is not greater either
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index 3769d2c..9cff5ff 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -18,7 +18,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (!data.empty() && !(s[0] > data.back()[0])) // NaN is not greater either
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From 85a3df4290110a8c0a60f5a9311e73690b2e66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 33/49] fix: compute_eventually and compute_until kept the
 samples their target held before

---
 src/robustness.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 76cd150..9d97c05 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -187,8 +187,11 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 
 void Signal::compute_eventually(const Signal &x) {
 
+	clear();
 	beginTime = x.beginTime;
 	endTime = x.endTime;
+	if (x.empty())
+		return;
 	Signal::const_reverse_iterator i = x.rbegin();
 	computePartialEventually(this, i, beginTime, endTime);
 
@@ -214,8 +217,8 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	cout << ">>>Signal::compute_until                      IN" << endl;
 #endif
 
+	clear();
 	if (x.empty()||y.empty()) {
-		this->clear();
 		return;
 	}
 
-- 
2.43.0


From 8848a97b1492e926a4737fe065ff0cbc8d3c5541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 34/49] fix: compute_bounded_eventually and
 compute_bounded_globally ignored the shifted operand

---
 src/robustness.cpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 9d97c05..a9136d0 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -278,15 +278,11 @@ void Signal::compute_bounded_eventually(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_max(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, BOTTOM);
-	z2.shift(-a);
-	z3.compute_or(z2, z1);
+	Signal y = x;
+	Signal *rob = computeBoundedEventually(&y, a);
 
-	compute_or(x, z3);
-	simplify();
+	*this = *rob;
+	delete rob;
 
   #ifdef DEBUG__
 	cout << "<  Signal::compute_bounded_eventually         OUT." << endl;
@@ -346,15 +342,11 @@ void Signal::compute_bounded_globally(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_min(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, TOP);
-	z2.shift(-a);
-	z3.compute_and(z2, z1);
+	Signal y = x;
+	Signal *rob = computeBoundedGlobally(&y, a);
 
-	compute_and(x, z3);
-	simplify();
+	*this = *rob;
+	delete rob;
 
 }
 
-- 
2.43.0


From c7d1fdefda04f4465202743081c366aa565b3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 35/49] fix: and, or, until at a single instant took the value
 before a jump

---
 src/robustness.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index a9136d0..0a0489d 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -25,8 +25,11 @@ static double valueAtEnd(const Signal & x, double t) {
 
 // the last instant of a signal has a value of its own when a sample lies there
 static void addEndValue(Signal * z, double v) {
-	if (z->endTime > z->beginTime)
-		z->push_back(Sample(z->endTime, v, 0.));
+	if (z->endTime < z->beginTime)
+		return;
+	if (z->endTime == z->beginTime)
+		z->clear();
+	z->push_back(Sample(z->endTime, v, 0.));
 }
 
 void Signal::compute_boolean(const Signal &y) {
-- 
2.43.0


From 681851f5861a4084aad05d3ca39ac4525020da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 36/49] fix: empty signals and empty rows dereferenced in
 operators, resize, addLastSample and add_sample

---
 src/robustness.cpp  | 18 ++++++++++++++++++
 src/signal.cpp      | 11 ++++++++++-
 src/stl_driver.cpp  |  2 +-
 src/stl_monitor.cpp |  2 +-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 0a0489d..37e6453 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -696,6 +696,9 @@ Signal * computeNot(Signal * y) {
 
 Signal * computeAnd(Signal * x, Signal * y) {
 
+	if (x->empty() || y->empty())
+		return new Signal();
+
 	Signal::const_reverse_iterator i = x->rbegin();
 	Signal::const_reverse_iterator j = y->rbegin();
 
@@ -722,6 +725,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 	cout << ">  computeOr:                                 IN." << endl;
 #endif
 
+	if (x->empty() || y->empty())
+		return new Signal();
+
 	Signal::const_reverse_iterator i = x->rbegin();
 	Signal::const_reverse_iterator j = y->rbegin();
 
@@ -786,6 +792,9 @@ Signal * computeEventually(Signal * x) {
 	z->beginTime = x->beginTime;
 	z->endTime = x->endTime;
 
+	if (x->empty())
+		return z;
+
 	Signal::const_reverse_iterator i = x->rbegin();
 	computePartialEventually(z, i, z->beginTime, z->endTime);
 
@@ -827,6 +836,9 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	double z_max = BOTTOM;
 	Signal * z = new Signal();
 
+	if (x->empty() || y->empty())
+		return z;
+
 	Signal::const_reverse_iterator i = x->rbegin();
 	Signal::const_reverse_iterator j = y->rbegin();
 
@@ -877,6 +889,9 @@ Signal * computeBoundedEventually(Signal * x, double a) {
 
 	Signal *z, *z1, *z2, *z3;
 
+	if (x->empty())
+		return new Signal();
+
 	z1 = plateauMax(x, a);
 	z2 = new Signal(*x);
 	z2->resize(x->beginTime + a, x->endTime + a, BOTTOM);
@@ -904,6 +919,9 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 
 	Signal *z, *z1, *z2, *z3;
 
+	if (x->empty())
+		return new Signal();
+
 	//cout << "computeBoundedGlobally with a=" << a << endl;
 	//cout << "x="  << *x << endl;
 	z1 = plateauMin(x, a);
diff --git a/src/signal.cpp b/src/signal.cpp
index 9440756..085475d 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -60,7 +60,7 @@ namespace STLRom {
     }
 
     void Signal::addLastSample() {
-        if (endTime> back().time) 
+        if (!empty() && endTime> back().time) 
             push_back(Sample(endTime, back().valueAt(endTime),0.));
     }
     
@@ -174,6 +174,15 @@ namespace STLRom {
         else 
             if (t < s)
                 t = s;  // hope I don't regret this.
+
+        if (empty()) {
+            // nothing to restrict: v everywhere
+            push_back(Sample(s, v, 0));
+            beginTime=s;
+            endTime=t;
+            return;
+        }
+
         Sample first;
 
         //trim or extend front of signal
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index e123911..02841f0 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -442,7 +442,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back()[0])) // NaN is not greater either
+		if (!data.empty() && !data.back().empty() && !(s[0] > data.back()[0])) // NaN is not greater either
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index 9cff5ff..b2157e3 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -18,7 +18,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back()[0])) // NaN is not greater either
+		if (!data.empty() && !data.back().empty() && !(s[0] > data.back()[0])) // NaN is not greater either
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From 0acd0115f9c5f071b3fd01839bc44ab6bcda0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 37/49] fix: evaluation at a NaN time read outside of the
 signals

---
 src/stl_driver.cpp  | 4 ++++
 src/stl_monitor.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 02841f0..9689832 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -503,6 +503,10 @@ namespace STLRom
 			cout << "Formula " << phi_in << " not found in formula_map." << endl;
 			return out_rob;
 		}
+		if (t0 != t0)
+		{
+			throw std::invalid_argument("Evaluation time is not a number.");
+		}
 		transducer *phi = formula_map[phi_in];
 		phi->set_trace_data_ptr(data);
 		phi->set_param_map_ptr(param_map);
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index b2157e3..a9e9435 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -34,6 +34,10 @@ namespace STLRom
     }
 	double STLMonitor::eval_rob(double t_start, double t_end)
         {
+            if (t_start != t_start || t_end != t_end)
+            {
+                throw std::invalid_argument("Evaluation time is not a number.");
+            }
             if (formula)
             {
 				// Ensure formula reads the right data
-- 
2.43.0


From df9a78f31b17ae129e5b0234e1400deedce80bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 38/49] fix: a byte 0 or above 127 was taken for the end of the
 text

---
 src/stl_scanner.cpp | 4 +++-
 src/stl_scanner.lpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index 87e1ad3..c325998 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -1037,7 +1037,9 @@ case 31:
 YY_RULE_SETUP
 #line 163 "stl_scanner.lpp"
 {
-    return static_cast<token_type>(*yytext);
+    // bytes from 0x80 on are negative chars, which (like 0) mean end of file to the parser
+    unsigned char c = *yytext;
+    return static_cast<token_type>(c ? c : 1);
 }
 	YY_BREAK
 case 32:
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index 082195c..a100e93 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -161,7 +161,9 @@ typedef STLRom::Parser::token_type token_type;
 
 
 . {
-    return static_cast<token_type>(*yytext);
+    // bytes from 0x80 on are negative chars, which (like 0) mean end of file to the parser
+    unsigned char c = *yytext;
+    return static_cast<token_type>(c ? c : 1);
 }
 
 
-- 
2.43.0


From c1c646c1c1691d78740b36804ebdf26d4f383e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:25 +0000
Subject: [PATCH 39/49] fix: rounding of window bounds lost the end of the
 known interval

---
 include/transducer.h        | 12 ++++++++++++
 src/interval_transducer.cpp | 12 ++++++------
 src/transducer.cpp          |  6 +++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/transducer.h b/include/transducer.h
index 4f64f84..344e6b1 100644
--- a/include/transducer.h
+++ b/include/transducer.h
@@ -389,6 +389,18 @@ namespace STLRom {
 
     /* Temporal operators */
 
+    // Time up to which z holds, for a temporal operator with a window of width w whose values are
+    // wanted up to end_time. When the operands are known up to the horizon of the window this is
+    // end_time itself: adding and subtracting the bounds of the window may round below it.
+    inline double end_known(Signal & z, double w, double end_operands, double horizon, double end_time) {
+        if (end_operands >= horizon) {
+            if (z.endTime < end_time)
+                z.endTime = end_time;
+            return end_time;
+        }
+        return (z.endTime-w < end_time) ? z.endTime-w : end_time;
+    }
+
     class ev_transducer: public timed_unary_transducer {
     public:
 
diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 20f9437..be98bea 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -169,7 +169,7 @@ namespace STLRom {
         }
     
         z_low.compute_timed_eventually(child->z_low, a, b);
-        double et =min(z_low.endTime,end_time);
+        double et = end_known(z_low, 0., child->z_low.endTime, end_time+b, end_time);
         z_low.resize(start_time,max(start_time,et), 0.);
 
         if (z_low.empty()) 
@@ -205,7 +205,7 @@ namespace STLRom {
         z_up.compute_timed_eventually(child->z_up, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_up.endTime-(b-a),end_time);
+        double et = end_known(z_up, b-a, child->z_up.endTime, end_time+b, end_time);
         z_up.resize(start_time,et, 0.);
 
         if (z_up.empty()) 
@@ -242,7 +242,7 @@ namespace STLRom {
         z_low.compute_timed_globally(child->z_low, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_low.endTime-(b-a),end_time);
+        double et = end_known(z_low, b-a, child->z_low.endTime, end_time+b, end_time);
         z_low.resize(start_time,et, 0.);
 	
         if (z_low.empty()) 
@@ -275,7 +275,7 @@ namespace STLRom {
 
         //    cout << "child->z_up:" << child->z_up << endl;
         z_up.compute_timed_globally(child->z_up, a, b);
-        double et =min(z_up.endTime,end_time);
+        double et = end_known(z_up, 0., child->z_up.endTime, end_time+b, end_time);
         z_up.resize(start_time,max(start_time,et), 0.);
 
         if (z_up.empty()) 
@@ -306,7 +306,7 @@ namespace STLRom {
         }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
-        double et =min(z_low.endTime,end_time);
+        double et = end_known(z_low, 0., min(childL->z_low.endTime,childR->z_low.endTime), end_time+b, end_time);
         z_low.resize(start_time,max(start_time,et),0.);
 
         if (z_low.empty())
@@ -333,7 +333,7 @@ namespace STLRom {
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
 
         // Here we remove values computed with partial data
-        double et =min(z_up.endTime-(b-a),end_time);
+        double et = end_known(z_up, b-a, min(childL->z_up.endTime,childR->z_up.endTime), end_time+b, end_time);
         z_up.resize(start_time,et,0.);
 
         if (z_up.empty())
diff --git a/src/transducer.cpp b/src/transducer.cpp
index 8f23909..f18dfba 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -167,7 +167,7 @@ namespace STLRom {
         //    }
         
 
-        double et = min(z.endTime,end_time);
+        double et = end_known(z, 0., child->z.endTime, end_time+b, end_time);
         (child->z).resize(et-b, (child->z).endTime, 0.);
 
         z.resize(start_time,max(start_time,et), 0.);
@@ -192,7 +192,7 @@ namespace STLRom {
         child->compute_robustness();
 
         z.compute_timed_globally(child->z, a, b);
-        double et =min(z.endTime,end_time);
+        double et = end_known(z, 0., child->z.endTime, end_time+b, end_time);
         z.resize(start_time,max(start_time, et ),0.);
 
 #ifdef DEBUG__
@@ -277,7 +277,7 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        double et = min(z.endTime,end_time);
+        double et = end_known(z, 0., min(childL->z.endTime, childR->z.endTime), end_time+b, end_time);
         z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
-- 
2.43.0


From e522c6e70a467c43e0e5bd77a31784313da310d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 40/49] fix: printed formulas lost their parentheses

---
 include/signal_expr.h | 12 +++++++++---
 include/transducer.h  |  9 ++++++++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index 21c91c8..34b5c8e 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -205,9 +205,11 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
+            os << "(";
             childL->print(os);
-            os << "+";
+            os << " + ";
             childR->print(os);
+            os << ")";
         };
     };
 
@@ -235,9 +237,11 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
+            os << "(";
             childL->print(os);
-            os << "-";
+            os << " - ";
             childR->print(os);
+            os << ")";
         };
     };
 
@@ -266,9 +270,11 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
+            os << "(";
             childL->print(os);
-            os << "*";
+            os << " * ";
             childR->print(os);
+            os << ")";
         };
     };
 
diff --git a/include/transducer.h b/include/transducer.h
index 344e6b1..9ebf00e 100644
--- a/include/transducer.h
+++ b/include/transducer.h
@@ -269,8 +269,9 @@ namespace STLRom {
         };
 
         void print(ostream &os) const {
-            os << "not ";
+            os << "(not ";
             child->print(os);
+            os << ")";
         }
         ;
 
@@ -305,9 +306,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
             os << " and ";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -342,9 +345,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
             os << " or ";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -379,9 +384,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
             os << " => ";
             childR->print(os);
+            os << ")";
         }
         ;
 
-- 
2.43.0


From 9fd36dbdec6534a12338c602b1f16e5b781847f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:25 +0000
Subject: [PATCH 41/49] fix: a point without digits was taken for a number

---
 src/stl_scanner.cpp | 3 +++
 src/stl_scanner.lpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index c325998..54d2593 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -998,6 +998,9 @@ case 27:
 YY_RULE_SETUP
 #line 133 "stl_scanner.lpp"
 {
+    // a point needs a digit
+    if (yyleng < 2 || yytext[yyleng-2] < '0' || yytext[yyleng-2] > '9')
+        return static_cast<token_type>('.');
     yylval->stringVal = new std::string(yytext, yyleng);
     //cout <<  *yylval->stringVal  << " is a CONSTANT "<< endl; 
 
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index a100e93..53a8cc3 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -131,6 +131,9 @@ typedef STLRom::Parser::token_type token_type;
 }
 
 [-+]?[0-9]*\. {
+    // a point needs a digit
+    if (yyleng < 2 || yytext[yyleng-2] < '0' || yytext[yyleng-2] > '9')
+        return static_cast<token_type>('.');
     yylval->stringVal = new std::string(yytext, yyleng);
     //cout <<  *yylval->stringVal  << " is a CONSTANT "<< endl; 
 
-- 
2.43.0


From bdfa94a3a12740697ffc381074a982f422417ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 42/49] fix: a comment on the last line needed a line end

---
 src/stl_scanner.cpp | 6 ++++++
 src/stl_scanner.lpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index 54d2593..b2dc41e 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -1042,6 +1042,12 @@ YY_RULE_SETUP
 {
     // bytes from 0x80 on are negative chars, which (like 0) mean end of file to the parser
     unsigned char c = *yytext;
+    if (c == '#') {
+        // a comment on the last line, without line end
+        while (yyinput() > 0)
+            ;
+        yyterminate();
+    }
     return static_cast<token_type>(c ? c : 1);
 }
 	YY_BREAK
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index 53a8cc3..2471327 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -166,6 +166,12 @@ typedef STLRom::Parser::token_type token_type;
 . {
     // bytes from 0x80 on are negative chars, which (like 0) mean end of file to the parser
     unsigned char c = *yytext;
+    if (c == '#') {
+        // a comment on the last line, without line end
+        while (yyinput() > 0)
+            ;
+        yyterminate();
+    }
     return static_cast<token_type>(c ? c : 1);
 }
 
-- 
2.43.0


From 8d58231055df21533a49d8836933c21d4404c00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 43/49] fix: a copied monitor lost the signal of its last
 evaluation

---
 include/stl_monitor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index da96375..20664bd 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -42,6 +42,7 @@ namespace STLRom
             if (other.formula)
             {
                 formula = other.formula->clone();
+                formula->z = other.formula->z;
             }
             else
             {
@@ -71,6 +72,7 @@ namespace STLRom
                 if (other.formula)
                 {
                     formula = other.formula->clone();
+                    formula->z = other.formula->z;
                 }
                 else
                 {
-- 
2.43.0


From 64da522cd232e2680ae58e90ef78a559925ce3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 44/49] fix: signals beyond the 32767th were out of reach

---
 src/stl_atom.cpp   | 2 +-
 src/stl_parser.cpp | 2 +-
 src/stl_parser.ypp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 52ad6ae..3ccd130 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -75,7 +75,7 @@ namespace STLRom {
         printf(">> signal_transducer::compute_robustness:     IN.\n");
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
-        short i = signal_map[variable];
+        int i = signal_map[variable];
         double t=-std::numeric_limits<double>::infinity(), v=0.;  
         double res= 0.;
 
diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index fe79cee..35d8bd3 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -1267,7 +1267,7 @@ namespace STLRom {
   case 49:
 #line 477 "stl_parser.ypp" // lalr1.cc:859
     {
-             short idx =  driver.signal_map.size()+1;
+             int idx =  driver.signal_map.size()+1;
              driver.signal_map[*(yystack_[0].value.stringVal)] = idx;
              delete (yystack_[0].value.stringVal);
           }
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 45e7a18..54a2d07 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -478,7 +478,7 @@ local_param_assignements: /* empty */
 
 signal_new: NEW_ID
           {
-             short idx =  driver.signal_map.size()+1;
+             int idx =  driver.signal_map.size()+1;
              driver.signal_map[*$1] = idx;
              delete $1;
           }
-- 
2.43.0


From 2a5e69b60ffaea796407a0dc00c5ce37a0891ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 45/49] fix: infinities and NaN in a trace file were not read
 back

---
 src/tools.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 4ad7765..d10eb13 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -120,9 +120,14 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	while (std::getline(file, line, '\n')) {
 		istringstream reader(line);
 		vector<double> lineData;
-		double val;
-		while (reader >> val) {
-			lineData.push_back(val);
+		string token;
+		while (reader >> token) { // reader >> double would not read the inf and nan that are written
+			char *rest;
+			double val = strtod(token.c_str(), &rest);
+			if (rest != token.c_str())
+				lineData.push_back(val);
+			if (*rest || rest == token.c_str())
+				break;
 		}
 		if (!lineData.empty())
 			data.push_back(lineData);
-- 
2.43.0


From 55f38942daa9c265ad6bd0ca83441b4d2ac86f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:31 +0000
Subject: [PATCH 46/49] fix: printed formulas rounded their constants to six
 digits and wrote exponents the parser does not read

---
 include/signal_expr.h |  2 +-
 include/tools.h       | 16 ++++++++++++++++
 src/interval.cpp      |  4 ++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index 34b5c8e..bb4b5fb 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -134,7 +134,7 @@ namespace STLRom
 
         void print(ostream &os) const
         {
-            param.empty() ? os << value : os << param;
+            param.empty() ? os << d_to_formula(value) : os << param;
         };
 
         void print() const
diff --git a/include/tools.h b/include/tools.h
index 1172924..9f31794 100644
--- a/include/tools.h
+++ b/include/tools.h
@@ -10,6 +10,7 @@
 #include <stdlib.h>
 #include <iostream>
 #include <sstream>
+#include <iomanip>
 #include <vector>
 #include <map>
 
@@ -39,6 +40,21 @@ inline string d_to_s(
 	return o.str();
 }
 
+/** number as it is written in a formula: no exponent, and all the digits needed to read back the same value */
+inline string d_to_formula(double x)
+{
+	string s;
+	for (int digits = 0; digits < 1100; digits++)
+	{
+		std::ostringstream o;
+		o << std::fixed << std::setprecision(digits) << x;
+		s = o.str();
+		if (strtod(s.c_str(), NULL) == x)
+			break;
+	}
+	return s;
+}
+
 /** Returns a m x n random trace */
 trace_data rand_trace_data( int m, int n);
 
diff --git a/src/interval.cpp b/src/interval.cpp
index 3875c68..31e82ae 100644
--- a/src/interval.cpp
+++ b/src/interval.cpp
@@ -40,12 +40,12 @@ string interval::to_string() const {
 	ostringstream o;
 	o << "[";
 	if (begin_str.empty())
-		o << begin;
+		o << d_to_formula(begin);
 	else
 		o << begin_str;
 	o << ",";
 	if (end_str.empty())
-		o << end;
+		o << d_to_formula(end);
 	else
 		o << end_str;
 	o << "]";
-- 
2.43.0


From 71ce123f54eaa0bb50db40bf88aa50dc82c2239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:22 +0000
Subject: [PATCH 47/49] fix: printing a point or a sample changed how later
 numbers are printed

---
 include/signal.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/signal.h b/include/signal.h
index 114a834..343de1e 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -6,6 +6,7 @@
 #include <fstream>
 #include <limits>
 #include <iomanip>
+#include <sstream>
 //#include <math.h>
 //#include <algorithm>
 // TODO maybe make TOP and BOTTOM static signal attribute ...
@@ -23,7 +24,11 @@ public:
 
 	Point(): time(0.), value(0.) { }
 	Point(double t, double v) : time(t), value(v) { }
-	void print_point(){cout << std::fixed << std::setprecision(5) <<"Time "<<time<<" Value "<<value<<endl;}
+	void print_point(){
+		std::ostringstream o;
+		o << std::fixed << std::setprecision(5) <<"Time "<<time<<" Value "<<value;
+		cout << o.str() << endl;
+	}
 	
 	friend std::ostream & operator<<(std::ostream &, const Point &);
 };
@@ -38,7 +43,11 @@ public:
 	double valueAt(const double &) const;
 	double timeIntersect(const Sample &) const;
 
-	void print_sample(){cout << std::fixed << std::setprecision(5) <<"Time "<<time<<" Value "<<value<< " Derivative "<< derivative << endl;}
+	void print_sample(){
+		std::ostringstream o;
+		o << std::fixed << std::setprecision(5) <<"Time "<<time<<" Value "<<value<< " Derivative "<< derivative;
+		cout << o.str() << endl;
+	}
 	
 	friend std::ostream & operator<<(std::ostream &, const Sample &);
 };
-- 
2.43.0


From 24e0d457a9e0917a11e0809eff202560d601054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:17 +0000
Subject: [PATCH 48/49] fix: signal operators whose target is an operand
 computed on an emptied operand

---
 src/robustness.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 37e6453..b71dcfb 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -33,6 +33,10 @@ static void addEndValue(Signal * z, double v) {
 }
 
 void Signal::compute_boolean(const Signal &y) {
+	if (&y == this) {
+		compute_boolean(Signal(y));
+		return;
+	}
 	clear();
 	beginTime = y.beginTime;
 	endTime = y.endTime;
@@ -75,6 +79,10 @@ void Signal::compute_boolean(const Signal &y) {
 #define ZERO_NEG -1e-14
 
 void Signal::compute_left_time_rob(const Signal &y) {
+	if (&y == this) {
+		compute_left_time_rob(Signal(y));
+		return;
+	}
 	clear();
 	beginTime = y.beginTime;
 	endTime = y.endTime;
@@ -94,6 +102,10 @@ void Signal::compute_left_time_rob(const Signal &y) {
 }
 
 void Signal::compute_right_time_rob(const Signal &y) {
+	if (&y == this) {
+		compute_right_time_rob(Signal(y));
+		return;
+	}
 	clear();
 	beginTime = y.beginTime;
 	endTime = y.endTime;
@@ -123,6 +135,10 @@ void Signal::compute_right_time_rob(const Signal &y) {
 }
 
 void Signal::compute_not(const Signal &y) {
+	if (&y == this) {
+		compute_not(Signal(y));
+		return;
+	}
 	clear();
 	beginTime = y.beginTime;
 	endTime = y.endTime;
@@ -132,6 +148,10 @@ void Signal::compute_not(const Signal &y) {
 }
 
 void Signal::compute_and(const Signal &x, const Signal &y) {
+	if (&x == this || &y == this) {
+		compute_and(Signal(x), Signal(y));
+		return;
+	}
 
 	clear();
 	if (x.empty() || y.empty()) {
@@ -156,6 +176,10 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 }
 
 void Signal::compute_or(const Signal &x, const Signal &y) {
+	if (&x == this || &y == this) {
+		compute_or(Signal(x), Signal(y));
+		return;
+	}
 
 	clear();
 	if (x.empty() || y.empty()) {
@@ -180,6 +204,10 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 }
 
 void Signal::compute_implies(const Signal &x, const Signal &y) {
+	if (&x == this || &y == this) {
+		compute_implies(Signal(x), Signal(y));
+		return;
+	}
 
 	clear();
 	Signal not_x;
@@ -189,6 +217,10 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 }
 
 void Signal::compute_eventually(const Signal &x) {
+	if (&x == this) {
+		compute_eventually(Signal(x));
+		return;
+	}
 
 	clear();
 	beginTime = x.beginTime;
@@ -216,6 +248,10 @@ void Signal::compute_globally(const Signal  &x) {
 }
 
 void Signal::compute_until(const Signal &x, const Signal &y) {
+	if (&x == this || &y == this) {
+		compute_until(Signal(x), Signal(y));
+		return;
+	}
 #ifdef DEBUG__
 	cout << ">>>Signal::compute_until                      IN" << endl;
 #endif
-- 
2.43.0


From 031397d725d678bb1445b42c828281d377ebdb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:20 +0000
Subject: [PATCH 49/49] fix: abs missed the change of sign between two samples,
 and became negative where a window ended

---
 include/signal_expr.h |  3 +++
 src/signal_expr.cpp   | 35 +++++++++++++++++++++++++++++++++++
 src/stl_atom.cpp      |  1 +
 3 files changed, 39 insertions(+)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index bb4b5fb..faded50 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -177,6 +177,9 @@ namespace STLRom
         };
     };
 
+    /* gives two signals with the same domain samples at the same times */
+    void same_times(Signal &x, Signal &y);
+
     /* binary signal operators - all operators assume that left and right operand have the
      * same number of samples.
      */
diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 551f143..1ba5fdf 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -9,6 +9,8 @@
 #include <exception>
 #include "signal_expr.h"
 #include <cmath>
+#include <algorithm>
+#include <iterator>
 
 using namespace std;
 
@@ -30,11 +32,41 @@ double abs_transducer::compute_robustness() {
 		double v = (*iter).value;
 		double d = (*iter).derivative;
 		z.appendSample(t, fabs(v), v<0.||(v==0.&&d<0.) ? -d : d);
+
+		// the sign changes before the next sample
+		if ((v > 0. && d < 0.) || (v < 0. && d > 0.)) {
+			double cross = t - v/d;
+			if (cross <= t)
+				z.back().derivative = fabs(d);
+			else if (cross < (std::next(iter) == child->z.end() ? child->z.endTime : std::next(iter)->time))
+				z.appendSample(cross, 0., fabs(d));
+		}
 	}
 	z.endTime = child->z.endTime;
 	return z.front().value;
 }
 
+static void add_times(Signal &x, const Signal &y) {
+	Signal xs;
+	auto iter = x.begin();
+	for (auto other = y.begin(); other != y.end(); other++) {
+		for (; iter != x.end() && iter->time <= other->time; iter++)
+			xs.push_back(*iter);
+		if (!xs.empty() && xs.back().time < other->time)
+			xs.push_back(Sample(other->time, xs.back().valueAt(other->time), xs.back().derivative));
+	}
+	xs.insert(xs.end(), iter, x.end());
+	x.swap(xs);
+}
+
+void same_times(Signal &x, Signal &y) {
+	if (x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(),
+			[](const Sample &a, const Sample &b) { return a.time == b.time; }))
+		return;
+	add_times(x, y);
+	add_times(y, x);
+}
+
 /* Binary signal operators - all operators assume that left and right operand have the
  * same number of samples.
  */
@@ -43,6 +75,7 @@ double plus_transducer::compute_robustness() {
 	// update children robustness
 	childL->compute_robustness();
 	childR->compute_robustness();
+	same_times(childL->z, childR->z);
 
 	z.clear();
 	auto iterL = childL->z.begin();
@@ -65,6 +98,7 @@ double minus_transducer::compute_robustness() {
 
 	childL->compute_robustness();
 	childR->compute_robustness();
+	same_times(childL->z, childR->z);
 
 	z.clear();
 	auto iterL = childL->z.begin();
@@ -87,6 +121,7 @@ double mult_transducer::compute_robustness() {
 
 	childL->compute_robustness();
 	childR->compute_robustness();
+	same_times(childL->z, childR->z);
 
 	z.clear();
 	auto iterL = childL->z.begin();
diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 3ccd130..9d1ab3e 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -31,6 +31,7 @@ namespace STLRom {
     
         childL->compute_robustness();
         childR->compute_robustness();
+        same_times(childL->z, childR->z);
         z.clear();
         auto itL = childL->z.begin();
         auto itR = childR->z.begin();
-- 
2.43.0

