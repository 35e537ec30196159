From 662f47d6e8125c1089f5c61bb0d424379a611c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 1/2] fix: recover the pattern caches of match() and search()
 from a poisoned lock

A panic while the lock is held, when an allocation fails and the process unwinds,
poisoned it, and every later use of the function in that environment panicked.
---
 .../src/standard_functions.rs                 | 34 ++++++++++++++++---
 .../src/standard_functions.rs                 | 34 ++++++++++++++++---
 .../src/standard_functions.rs                 | 34 ++++++++++++++++---
 .../src/standard_functions.rs                 | 34 ++++++++++++++++---
 4 files changed, 116 insertions(+), 20 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..2b8d869 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -1,4 +1,7 @@
-use std::{num::NonZeroUsize, sync::Mutex};
+use std::{
+    num::NonZeroUsize,
+    sync::{Mutex, MutexGuard},
+};
 
 use lru::LruCache;
 use regex::Regex;
@@ -77,6 +80,27 @@ impl FunctionExtension for Length {
     }
 }
 
+fn new_cache() -> LruCache<String, Regex> {
+    LruCache::new(NonZeroUsize::new(100).unwrap())
+}
+
+/// Lock a cache of compiled patterns.
+///
+/// The lock is poisoned if there was a panic while it was held, when an allocation
+/// failed, for example. The cache could be in an inconsistent state after that, so we
+/// start again with an empty one rather than failing from then on.
+fn lock_cache(cache: &Mutex<LruCache<String, Regex>>) -> MutexGuard<'_, LruCache<String, Regex>> {
+    match cache.lock() {
+        Ok(guard) => guard,
+        Err(poisoned) => {
+            let mut guard = poisoned.into_inner();
+            *guard = new_cache();
+            cache.clear_poison();
+            guard
+        }
+    }
+}
+
 pub struct Match {
     cache: Mutex<LruCache<String, Regex>>,
 }
@@ -84,7 +108,7 @@ pub struct Match {
 impl Match {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -100,7 +124,7 @@ impl FunctionExtension for Match {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
@@ -138,7 +162,7 @@ pub struct Search {
 impl Search {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -154,7 +178,7 @@ impl FunctionExtension for Search {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..c74c480 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -1,4 +1,7 @@
-use std::{num::NonZeroUsize, sync::Mutex};
+use std::{
+    num::NonZeroUsize,
+    sync::{Mutex, MutexGuard},
+};
 
 use lru::LruCache;
 use regex::Regex;
@@ -77,6 +80,27 @@ impl FunctionExtension for Length {
     }
 }
 
+fn new_cache() -> LruCache<String, Regex> {
+    LruCache::new(NonZeroUsize::new(100).unwrap())
+}
+
+/// Lock a cache of compiled patterns.
+///
+/// The lock is poisoned if there was a panic while it was held, when an allocation
+/// failed, for example. The cache could be in an inconsistent state after that, so we
+/// start again with an empty one rather than failing from then on.
+fn lock_cache(cache: &Mutex<LruCache<String, Regex>>) -> MutexGuard<'_, LruCache<String, Regex>> {
+    match cache.lock() {
+        Ok(guard) => guard,
+        Err(poisoned) => {
+            let mut guard = poisoned.into_inner();
+            *guard = new_cache();
+            cache.clear_poison();
+            guard
+        }
+    }
+}
+
 pub struct Match {
     cache: Mutex<LruCache<String, Regex>>,
 }
@@ -84,7 +108,7 @@ pub struct Match {
 impl Match {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -100,7 +124,7 @@ impl FunctionExtension for Match {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
@@ -138,7 +162,7 @@ pub struct Search {
 impl Search {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -154,7 +178,7 @@ impl FunctionExtension for Search {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..f7c0ce0 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -1,4 +1,7 @@
-use std::{num::NonZeroUsize, sync::Mutex};
+use std::{
+    num::NonZeroUsize,
+    sync::{Mutex, MutexGuard},
+};
 
 use lru::LruCache;
 use regex::Regex;
@@ -77,6 +80,27 @@ impl FunctionExtension for Length {
     }
 }
 
+fn new_cache() -> LruCache<String, Regex> {
+    LruCache::new(NonZeroUsize::new(100).unwrap())
+}
+
+/// Lock a cache of compiled patterns.
+///
+/// The lock is poisoned if there was a panic while it was held, when an allocation
+/// failed, for example. The cache could be in an inconsistent state after that, so we
+/// start again with an empty one rather than failing from then on.
+fn lock_cache(cache: &Mutex<LruCache<String, Regex>>) -> MutexGuard<'_, LruCache<String, Regex>> {
+    match cache.lock() {
+        Ok(guard) => guard,
+        Err(poisoned) => {
+            let mut guard = poisoned.into_inner();
+            *guard = new_cache();
+            cache.clear_poison();
+            guard
+        }
+    }
+}
+
 pub struct Match {
     cache: Mutex<LruCache<String, Regex>>,
 }
@@ -84,7 +108,7 @@ pub struct Match {
 impl Match {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -100,7 +124,7 @@ impl FunctionExtension for Match {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
@@ -138,7 +162,7 @@ pub struct Search {
 impl Search {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -154,7 +178,7 @@ impl FunctionExtension for Search {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..c74c480 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -1,4 +1,7 @@
-use std::{num::NonZeroUsize, sync::Mutex};
+use std::{
+    num::NonZeroUsize,
+    sync::{Mutex, MutexGuard},
+};
 
 use lru::LruCache;
 use regex::Regex;
@@ -77,6 +80,27 @@ impl FunctionExtension for Length {
     }
 }
 
+fn new_cache() -> LruCache<String, Regex> {
+    LruCache::new(NonZeroUsize::new(100).unwrap())
+}
+
+/// Lock a cache of compiled patterns.
+///
+/// The lock is poisoned if there was a panic while it was held, when an allocation
+/// failed, for example. The cache could be in an inconsistent state after that, so we
+/// start again with an empty one rather than failing from then on.
+fn lock_cache(cache: &Mutex<LruCache<String, Regex>>) -> MutexGuard<'_, LruCache<String, Regex>> {
+    match cache.lock() {
+        Ok(guard) => guard,
+        Err(poisoned) => {
+            let mut guard = poisoned.into_inner();
+            *guard = new_cache();
+            cache.clear_poison();
+            guard
+        }
+    }
+}
+
 pub struct Match {
     cache: Mutex<LruCache<String, Regex>>,
 }
@@ -84,7 +108,7 @@ pub struct Match {
 impl Match {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -100,7 +124,7 @@ impl FunctionExtension for Match {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
@@ -138,7 +162,7 @@ pub struct Search {
 impl Search {
     pub fn new() -> Self {
         Self {
-            cache: Mutex::new(LruCache::new(NonZeroUsize::new(100).unwrap())),
+            cache: Mutex::new(new_cache()),
         }
     }
 }
@@ -154,7 +178,7 @@ impl FunctionExtension for Search {
         match (args.first().unwrap(), args.get(1).unwrap()) {
             (FilterExpressionResult::String(s), FilterExpressionResult::String(p)) => {
                 // TODO: fail early if p is known to be invalid
-                let mut cache = self.cache.lock().unwrap();
+                let mut cache = lock_cache(&self.cache);
 
                 match cache.get(p) {
                     Some(re) => FilterExpressionResult::Bool(re.is_match(s)),
-- 
2.43.0


From 18f4cbb931fd02680276cfef13285abd47a91a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 2/2] fix: iterate instead of recursing over selectors and
 filtered elements

SegmentIter, ArrayFilterIter and ObjectFilterIter called next() recursively for every
exhausted selector and every rejected element, so wide data overflowed the stack.
---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 38 ++++++++----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..9351eee 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -57,15 +57,11 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            if let Some(v) = self.it.next() {
+                return Some(v);
+            }
+            self.it = Box::new(self.selectors.next()?);
         }
     }
 }
@@ -200,16 +196,12 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
-                }
+        for (index, value) in self.it.by_ref() {
+            if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                return Some(self.parent.new_child_element(value, index));
             }
-            None => None,
         }
+        None
     }
 }
 
@@ -242,16 +234,12 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
-                }
+        for (k, v) in self.it.by_ref() {
+            if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                return Some(self.parent.new_child_member(v, k));
             }
-            None => None,
         }
+        None
     }
 }
 
-- 
2.43.0

