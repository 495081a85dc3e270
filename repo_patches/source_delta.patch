From c58e39ab5f15d965dd04891f2d1074f700afd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:21 +0000
Subject: [PATCH 1/4] fix: release the slab slot of an abandoned placeholder

remove_placeholder only removed the map entry, so every abandoned load
leaked one slot of the slab.
---
 src/shard.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard.rs b/src/shard.rs
index 65fc148..bbae92d 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -182,6 +182,7 @@ impl<Key, Val, We, B, L, Plh: SharedPlaceholder> CacheShard<Key, Val, We, B, L,
             matches!(entry, Entry::Placeholder(Placeholder { shared, .. }) if shared.same_as(placeholder))
         }) {
             entry.remove();
+            self.entries.remove(placeholder.idx());
         }
     }
 
-- 
2.43.0


From ba509124399325fa97b0dfaf8e776fab2aaf5c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:21 +0000
Subject: [PATCH 2/4] fix: unsync get_or_insert_with leaves no placeholder when
 the load fails

---
 src/unsync.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/unsync.rs b/src/unsync.rs
index 0aded9c..747ace6 100644
--- a/src/unsync.rs
+++ b/src/unsync.rs
@@ -252,7 +252,13 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
+                let v = match with() {
+                    Ok(v) => v,
+                    Err(e) => {
+                        self.shard.remove_placeholder(&plh);
+                        return Err(e);
+                    }
+                };
                 let mut lcs = self.shard.lifecycle.begin_request();
                 let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
                 self.shard.lifecycle.end_request(lcs);
@@ -278,7 +284,13 @@ impl<Key: Eq + Hash, Val, We: Weighter<Key, Val>, B: BuildHasher, L: Lifecycle<K
         let idx = match self.shard.upsert_placeholder(self.shard.hash(key), key) {
             Ok((idx, _)) => idx,
             Err((plh, _)) => {
-                let v = with()?;
+                let v = match with() {
+                    Ok(v) => v,
+                    Err(e) => {
+                        self.shard.remove_placeholder(&plh);
+                        return Err(e);
+                    }
+                };
                 let mut lcs = self.shard.lifecycle.begin_request();
                 let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
                 debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
-- 
2.43.0


From 455c691471ca3ca534c9b338ecb0315acb857173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:21 +0000
Subject: [PATCH 3/4] fix: keep the hot target within [1, capacity]

With a small capacity (or hot_allocation) the target rounded down to 0 and
the cache refused every item; for capacities above 2^53 it could round up
past the capacity.
---
 src/shard.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shard.rs b/src/shard.rs
index bbae92d..67c15b6 100644
--- a/src/shard.rs
+++ b/src/shard.rs
@@ -225,7 +225,10 @@ impl<
         hash_builder: B,
         lifecycle: L,
     ) -> Self {
-        let weight_target_hot = (weight_capacity as f64 * hot_allocation) as u64;
+        // At least 1 (if there's any capacity), otherwise nothing would be admitted. The float
+        // multiplication can also round up, but items that don't fit can't be admitted either.
+        let weight_target_hot = ((weight_capacity as f64 * hot_allocation) as u64)
+            .clamp(weight_capacity.min(1), weight_capacity);
         let capacity_non_resident = (estimated_items_capacity as f64 * ghost_allocation) as usize;
         Self {
             hash_builder,
-- 
2.43.0


From d0e8f2e705838f65400eb4c89561c4c561583201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:21 +0000
Subject: [PATCH 4/4] fix: park for the remaining time when waiting with a
 timeout

It parked for the elapsed time, starting with a busy loop and overshooting
the timeout by up to 2x.
---
 src/sync_placeholder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync_placeholder.rs b/src/sync_placeholder.rs
index 2952ef8..8a291d3 100644
--- a/src/sync_placeholder.rs
+++ b/src/sync_placeholder.rs
@@ -238,7 +238,7 @@ impl<
                 let start = Instant::now();
                 loop {
                     #[cfg(not(fuzzing))]
-                    thread::park_timeout(Instant::now().saturating_duration_since(start));
+                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));
                     if notification.load(atomic::Ordering::Acquire) {
                         break;
                     }
-- 
2.43.0

