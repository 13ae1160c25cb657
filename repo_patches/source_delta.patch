From b1529c42a2f21923f793a32b1913141f840ec05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 01/12] fix: fail a buffered call whose reserved slot outlived
 the worker

---
 tower/src/buffer/future.rs  | 6 ++++++
 tower/src/buffer/service.rs | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/tower/src/buffer/future.rs b/tower/src/buffer/future.rs
index 4117890..fa10915 100644
--- a/tower/src/buffer/future.rs
+++ b/tower/src/buffer/future.rs
@@ -45,6 +45,12 @@ impl<T> ResponseFuture<T> {
         }
     }
 
+    pub(crate) fn dispatched(fut: T) -> Self {
+        ResponseFuture {
+            state: ResponseState::Poll { fut },
+        }
+    }
+
     pub(crate) fn failed(err: crate::BoxError) -> Self {
         ResponseFuture {
             state: ResponseState::Failed { error: Some(err) },
diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 9493f10..f49f898 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -117,9 +117,16 @@ where
 
         // If we've made it here, then a channel permit has already been
         // acquired, so we can freely allocate a oneshot.
-        let (tx, rx) = oneshot::channel();
+        let (tx, mut rx) = oneshot::channel();
 
         match self.tx.send_item(Message { request, span, tx }) {
+            // A permit that was reserved earlier lets the message into the channel even if the
+            // worker is gone by now, and then nobody takes it out again: don't wait for a reply.
+            Ok(_) if self.tx.get_ref().map_or(true, |tx| tx.is_closed()) => match rx.try_recv() {
+                Ok(Ok(future)) => ResponseFuture::dispatched(future),
+                Ok(Err(error)) => ResponseFuture::failed(error.into()),
+                Err(_) => ResponseFuture::failed(self.get_worker_error()),
+            },
             Ok(_) => ResponseFuture::new(rx),
             // If the channel is closed, propagate the error from the worker.
             Err(_) => {
-- 
2.43.0


From c7349739dd0fd84b0c04d2a67b64d458be47c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 02/12] fix: keep the slots of TpsBudget aligned, so that none
 expires early

---
 tower/src/retry/budget/tps_budget.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d694998..d31ae65 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -124,16 +124,19 @@ impl TpsBudget {
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
         self.slots[gen.index].store(to_commit, Ordering::SeqCst);
 
-        let mut diff = diff;
+        // One window has been committed, each further whole window that has passed stays empty.
+        let mut diff = diff - self.window;
         let mut idx = (gen.index + 1) % self.slots.len();
-        while diff > self.window {
+        while diff >= self.window {
             self.slots[idx].store(0, Ordering::SeqCst);
             diff -= self.window;
             idx = (idx + 1) % self.slots.len();
         }
 
         gen.index = idx;
-        gen.time = now;
+        // The current window started `diff` ago. Counting it from now on instead would make the
+        // slots drift, and expire early when calls are spaced by more than one window.
+        gen.time = now - diff;
     }
 
     fn sum(&self) -> isize {
-- 
2.43.0


From de70105756faeb2c4ba152996ce2368e7a28b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 03/12] fix: honour retry percentages which are not the
 reciprocal of an integer in TpsBudget

---
 tower/src/retry/budget/tps_budget.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d31ae65..ee46ed7 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -79,12 +79,14 @@ impl TpsBudget {
             // Withdrawals can only be made against the reserve, over time.
             (0, 1)
         } else if retry_percent <= 1.0 {
-            (1, (1.0 / retry_percent) as isize)
+            // The amounts are integers, scaled so that percentages which are not the reciprocal
+            // of an integer are not rounded up to one that is.
+            (1000, (1000.0 / retry_percent) as isize)
         } else {
             // Support for when retry_percent is between 1.0 and 1000.0,
             // meaning for every deposit D, D * retry_percent withdrawals
             // can be made.
-            (1000, (1000.0 / retry_percent) as isize)
+            ((1000.0 * retry_percent).round() as isize, 1000)
         };
         let reserve = (min_per_sec as isize)
             .saturating_mul(ttl.as_secs() as isize) // ttl is between 1 and 60 seconds
-- 
2.43.0


From a3c9e6765a908911e83e6c7c3dd60c770d98ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 04/12] fix: accept a random factor of zero in
 ExponentialBackoff

---
 tower/src/retry/backoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 38a5f69..b56322b 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -155,7 +155,7 @@ impl<R: Rng> ExponentialBackoff<R> {
         } else {
             let jitter_factor = self.rng.next_f64();
             debug_assert!(
-                jitter_factor > 0.0,
+                jitter_factor >= 0.0,
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-- 
2.43.0


From 53ac3a329b8f90f25b6d68d889c66c066f6d9a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 05/12] fix: do not truncate the jitter of ExponentialBackoff
 to whole seconds

---
 tower/src/retry/backoff.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index b56322b..c079637 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -159,10 +159,13 @@ impl<R: Rng> ExponentialBackoff<R> {
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-            let secs = (base.as_secs() as f64) * rand_jitter;
-            let nanos = (base.subsec_nanos() as f64) * rand_jitter;
+            let jitter = base.as_secs_f64() * rand_jitter;
             let remaining = self.max - base;
-            time::Duration::new(secs as u64, nanos as u32).min(remaining)
+            if jitter < remaining.as_secs_f64() {
+                time::Duration::from_secs_f64(jitter).min(remaining)
+            } else {
+                remaining
+            }
         }
     }
 }
-- 
2.43.0


From fc92ca1a5bc7c639df8df3edf94d1e0ab6460957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 06/12] fix: do not poll the discovery stream of a balancer
 again after it has ended

---
 tower/src/balance/p2c/service.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index 30572fc..fc348c0 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -32,6 +32,8 @@ where
     D::Key: Hash,
 {
     discover: D,
+    /// Set once `discover` has ended: the stream must not be polled again.
+    discover_ended: bool,
 
     services: ReadyCache<D::Key, D::Service, Req>,
     ready_index: Option<usize>,
@@ -73,6 +75,7 @@ where
         Self {
             rng,
             discover,
+            discover_ended: false,
             services: ReadyCache::default(),
             ready_index: None,
 
@@ -108,12 +111,18 @@ where
         cx: &mut Context<'_>,
     ) -> Poll<Option<Result<(), error::Discover>>> {
         debug!("updating from discover");
+        if self.discover_ended {
+            return Poll::Ready(None);
+        }
         loop {
             match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                 .transpose()
                 .map_err(|e| error::Discover(e.into()))?
             {
-                None => return Poll::Ready(None),
+                None => {
+                    self.discover_ended = true;
+                    return Poll::Ready(None);
+                }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
                     self.services.evict(&key);
-- 
2.43.0


From a9f7ef24e30cb52e028838282372b3c82747f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 07/12] fix: release the load handle of a failed request when
 its future resolves

---
 tower/src/load/completion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tower/src/load/completion.rs b/tower/src/load/completion.rs
index 857e055..d23ed45 100644
--- a/tower/src/load/completion.rs
+++ b/tower/src/load/completion.rs
@@ -77,9 +77,10 @@ where
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
-        let rsp = ready!(this.future.poll(cx))?;
+        let result = ready!(this.future.poll(cx));
+        // A failed request is complete as well: its handle must not outlive the failure.
         let h = this.handle.take().expect("handle");
-        Poll::Ready(Ok(this.completion.track_completion(h, rsp)))
+        Poll::Ready(Ok(this.completion.track_completion(h, result?)))
     }
 }
 
-- 
2.43.0


From 5fa59ec0023ef63a0c1a62d370ab6e87351979b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 08/12] fix: clear the hedge histogram after more than 2^32
 idle periods

---
 tower/src/hedge/rotating_histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tower/src/hedge/rotating_histogram.rs b/tower/src/hedge/rotating_histogram.rs
index 4b07a15..233eda4 100644
--- a/tower/src/hedge/rotating_histogram.rs
+++ b/tower/src/hedge/rotating_histogram.rs
@@ -41,7 +41,7 @@ impl RotatingHistogram {
     fn maybe_rotate(&mut self) {
         let delta = Instant::now().saturating_duration_since(self.last_rotation);
         // TODO: replace with delta.duration_div when it becomes stable.
-        let rotations = (nanos(delta) / nanos(self.period)) as u32;
+        let rotations = nanos(delta) / nanos(self.period);
         if rotations >= 2 {
             trace!("Time since last rotation is {:?}.  clearing!", delta);
             self.clear();
@@ -49,7 +49,7 @@ impl RotatingHistogram {
             trace!("Time since last rotation is {:?}. rotating!", delta);
             self.rotate();
         }
-        self.last_rotation += self.period * rotations;
+        self.last_rotation += Duration::from_nanos(nanos(self.period) * rotations);
     }
 
     fn rotate(&mut self) {
-- 
2.43.0


From 951ba7160ec21a60d375bb953e2e3822b66076b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 09/12] fix: do not carry the readiness of a Steer over to its
 clones

---
 tower/src/steer/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tower/src/steer/mod.rs b/tower/src/steer/mod.rs
index d614196..d01c3ed 100644
--- a/tower/src/steer/mod.rs
+++ b/tower/src/steer/mod.rs
@@ -177,7 +177,9 @@ where
         Self {
             router: self.router.clone(),
             services: self.services.clone(),
-            not_ready: self.not_ready.clone(),
+            // Readiness is not carried over to a clone: each of the cloned services has to be
+            // polled to readiness before it may be called.
+            not_ready: (0..self.services.len()).collect(),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 9be7b0e416e2d489fcbb8d55086088e5b891e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:03 +0000
Subject: [PATCH 10/12] fix: keep concurrent withdrawals from overdrawing the
 retry budget

TpsBudget::withdraw added up the balance and took from it in separate
steps, so that two threads could both take the last token, or miss the
tokens of a slot another thread was just committing.
---
 tower/src/retry/budget/tps_budget.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index ee46ed7..1926f11 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -4,7 +4,7 @@ use std::{
     fmt,
     sync::{
         atomic::{AtomicIsize, Ordering},
-        Mutex,
+        Mutex, MutexGuard,
     },
     time::Duration,
 };
@@ -113,14 +113,15 @@ impl TpsBudget {
         }
     }
 
-    fn expire(&self) {
+    /// Commits the slots which have expired, and returns the lock under which this happened.
+    fn expire(&self) -> MutexGuard<'_, Generation> {
         let mut gen = self.generation.lock().expect("generation lock");
 
         let now = Instant::now();
         let diff = now.saturating_duration_since(gen.time);
         if diff < self.window {
             // not expired yet
-            return;
+            return gen;
         }
 
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
@@ -139,6 +140,8 @@ impl TpsBudget {
         // The current window started `diff` ago. Counting it from now on instead would make the
         // slots drift, and expire early when calls are spaced by more than one window.
         gen.time = now - diff;
+
+        gen
     }
 
     fn sum(&self) -> isize {
@@ -156,14 +159,16 @@ impl TpsBudget {
     }
 
     fn put(&self, amt: isize) {
-        self.expire();
+        drop(self.expire());
         self.writer.fetch_add(amt, Ordering::SeqCst);
     }
 
     fn try_get(&self, amt: isize) -> bool {
         debug_assert!(amt >= 0);
 
-        self.expire();
+        // Hold the lock: between adding up the balance and taking from it, no other withdrawal may
+        // do the same and no slot may move.
+        let _gen = self.expire();
 
         let sum = self.sum();
         if sum >= amt {
-- 
2.43.0


From bcc4fd86d7f4f8a02bfe841966e7e9dce0bb8309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 11/12] fix: balance must not keep a selected index after an
 eviction moved another endpoint there

---
 tower/src/balance/p2c/service.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index fc348c0..954f228 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -125,7 +125,12 @@ where
                 }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
-                    self.services.evict(&key);
+                    if self.services.evict(&key) {
+                        // Another ready service may have taken the index of
+                        // the evicted one, so an earlier selection no longer
+                        // stands.
+                        self.ready_index = None;
+                    }
                 }
                 Some(Change::Insert(key, svc)) => {
                     trace!("insert");
@@ -216,8 +221,9 @@ where
     >;
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        // `ready_index` may have already been set by a prior invocation. These
-        // updates cannot disturb the order of existing ready services.
+        // `ready_index` may have already been set by a prior invocation. It is
+        // cleared when these updates disturb the order of existing ready
+        // services.
         let _ = self.update_pending_from_discover(cx)?;
         self.promote_pending_to_ready(cx);
 
-- 
2.43.0


From c5dccf6bdd04d540839bad004f5610dbf174f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:59 +0000
Subject: [PATCH 12/12] fix: AsyncFilter::layer must wrap services with an
 AsyncFilter

It returned the layer of the synchronous filter, contrary to its documentation.
---
 tower/src/filter/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tower/src/filter/mod.rs b/tower/src/filter/mod.rs
index c53ba40..1ce257d 100644
--- a/tower/src/filter/mod.rs
+++ b/tower/src/filter/mod.rs
@@ -131,8 +131,8 @@ impl<T, U> AsyncFilter<T, U> {
     /// service with the given [`AsyncPredicate`].
     ///
     /// [`Layer`]: crate::Layer
-    pub fn layer(predicate: U) -> FilterLayer<U> {
-        FilterLayer::new(predicate)
+    pub fn layer(predicate: U) -> AsyncFilterLayer<U> {
+        AsyncFilterLayer::new(predicate)
     }
 
     /// Check a `Request` value against this filter's predicate.
-- 
2.43.0

