From 91ff0d619251daaf62706664a1b9e7388ab807ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:47 +0000
Subject: [PATCH 1/3] fix: do not let first-use detection overwrite a
 concurrent force or unforce

If one thread's first use of the crate was still detecting whether the
compiler is available while another thread called fallback::force or
fallback::unforce, the detection result was stored unconditionally
afterwards and the explicit choice was lost for the rest of the process.
---
 src/detection.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/detection.rs b/src/detection.rs
index beba7b2..8cad83f 100644
--- a/src/detection.rs
+++ b/src/detection.rs
@@ -11,7 +11,13 @@ pub(crate) fn inside_proc_macro() -> bool {
         _ => {}
     }
 
-    INIT.call_once(initialize);
+    // A concurrent force_fallback or unforce_fallback takes precedence over the
+    // result of this initialization.
+    INIT.call_once(|| {
+        initialize(|works| {
+            let _ = WORKS.compare_exchange(0, works, Ordering::Relaxed, Ordering::Relaxed);
+        });
+    });
     inside_proc_macro()
 }
 
@@ -20,13 +26,13 @@ pub(crate) fn force_fallback() {
 }
 
 pub(crate) fn unforce_fallback() {
-    initialize();
+    initialize(|works| WORKS.store(works, Ordering::Relaxed));
 }
 
 #[cfg(not(no_is_available))]
-fn initialize() {
+fn initialize(decide: fn(usize)) {
     let available = proc_macro::is_available();
-    WORKS.store(available as usize + 1, Ordering::Relaxed);
+    decide(available as usize + 1);
 }
 
 // Swap in a null panic hook to avoid printing "thread panicked" to stderr,
@@ -54,7 +60,7 @@ fn initialize() {
 // not occur, they need to call e.g. `proc_macro2::Span::call_site()` from
 // the main thread before launching any other threads.
 #[cfg(no_is_available)]
-fn initialize() {
+fn initialize(decide: fn(usize)) {
     use std::panic::{self, PanicInfo};
 
     type PanicHook = dyn Fn(&PanicInfo) + Sync + Send + 'static;
@@ -65,7 +71,7 @@ fn initialize() {
     panic::set_hook(null_hook);
 
     let works = panic::catch_unwind(proc_macro::Span::call_site).is_ok();
-    WORKS.store(works as usize + 1, Ordering::Relaxed);
+    decide(works as usize + 1);
 
     let hopefully_null_hook = panic::take_hook();
     panic::set_hook(original_hook);
-- 
2.43.0


From c017cff6b43abb245d65d01b2ff9bf9fd4042554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:23 +0000
Subject: [PATCH 2/3] fix: make Literal::subspan count bytes, not characters

Literal::subspan is documented to select a range of source bytes, which is
what the compiler's implementation does. The fallback added the byte range
to character positions, so in a literal containing a multi-byte character
it returned a span over the wrong part of the source, or None.
---
 src/fallback.rs | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/src/fallback.rs b/src/fallback.rs
index 61dc21d..1ca0808 100644
--- a/src/fallback.rs
+++ b/src/fallback.rs
@@ -1165,33 +1165,21 @@ impl Literal {
         {
             use core::ops::Bound;
 
-            let lo = match range.start_bound() {
-                Bound::Included(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?
-                }
-                Bound::Excluded(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?.checked_add(1)?
-                }
-                Bound::Unbounded => self.span.lo,
+            // The range counts bytes of the source, spans count characters.
+            let source = self.span.source_text().unwrap_or_default();
+            let start = match range.start_bound() {
+                Bound::Included(start) => *start,
+                Bound::Excluded(start) => start.checked_add(1)?,
+                Bound::Unbounded => 0,
             };
-            let hi = match range.end_bound() {
-                Bound::Included(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?.checked_add(1)?
-                }
-                Bound::Excluded(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?
-                }
-                Bound::Unbounded => self.span.hi,
+            let end = match range.end_bound() {
+                Bound::Included(end) => end.checked_add(1)?,
+                Bound::Excluded(end) => *end,
+                Bound::Unbounded => source.len(),
             };
-            if lo <= hi && hi <= self.span.hi {
-                Some(Span { lo, hi })
-            } else {
-                None
-            }
+            let lo = self.span.lo + source.get(..start)?.chars().count() as u32;
+            let hi = lo + source.get(start..end)?.chars().count() as u32;
+            Some(Span { lo, hi })
         }
     }
 }
-- 
2.43.0


From e6d06efa9875e8b71ceeab444fcdadb99852b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:33 +0000
Subject: [PATCH 3/3] fix: do not count the carriage return of a CRLF in a doc
 comment's span

---
 src/parse.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7de0a5c..c5aebda 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -980,10 +980,8 @@ fn take_until_newline_or_eof(input: Cursor) -> (Cursor, &str) {
     let chars = input.char_indices();
 
     for (i, ch) in chars {
-        if ch == '\n' {
+        if ch == '\n' || (ch == '\r' && input.rest[i + 1..].starts_with('\n')) {
             return (input.advance(i), &input.rest[..i]);
-        } else if ch == '\r' && input.rest[i + 1..].starts_with('\n') {
-            return (input.advance(i + 1), &input.rest[..i]);
         }
     }
 
-- 
2.43.0

