From 0d910996bd8a60c5e34a3e719aa9688960c0a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:43 +0000
Subject: [PATCH 1/5] Add sim_hooks feature announcing Arc operations of
 DatumArc

Off by default. With it on, the Arc inside DatumArc is a wrapper that calls
a per-thread hook before each reference-count operation, so that thread
schedules can be simulated deterministically.
---
 Cargo.toml       |   4 ++
 src/datum.rs     |   4 ++
 src/drop.rs      |   3 +
 src/lib.rs       |   3 +
 src/sim_hooks.rs | 174 +++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 188 insertions(+)
 create mode 100644 src/sim_hooks.rs

diff --git a/Cargo.toml b/Cargo.toml
index d00d2cb..e254b46 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -68,6 +68,10 @@ if_then_some_else_none =           { level = "allow", priority = 1 }
 [lints]
 workspace = true
 
+[features]
+# For simulating thread schedules.  Not for normal use.
+sim_hooks = []
+
 [dependencies]
 kul_core = { path = "core", version = "0.1.4" }
 
diff --git a/src/datum.rs b/src/datum.rs
index 0cec90f..251e39f 100644
--- a/src/datum.rs
+++ b/src/datum.rs
@@ -5,9 +5,13 @@
 
 use std::boxed::Box;
 use std::rc::Rc;
+#[cfg(not(feature = "sim_hooks"))]
 use std::sync::Arc;
 use std::ops::{Deref, DerefMut};
 
+#[cfg(feature = "sim_hooks")]
+use crate::sim_hooks::Arc;
+
 // Re-export everything from the core mod.
 #[doc(no_inline)]
 pub use kul_core::datum::{*, premade::*};
diff --git a/src/drop.rs b/src/drop.rs
index 596809e..86a0dd6 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -7,8 +7,11 @@
 use std::ops::{Deref, DerefMut};
 use std::mem::replace;
 use std::rc::Rc;
+#[cfg(not(feature = "sim_hooks"))]
 use std::sync::Arc;
 
+#[cfg(feature = "sim_hooks")]
+use crate::sim_hooks::Arc;
 use crate::{Datum, DerefTryMut};
 use crate::datum::{DatumBox, RcDatum, DatumRc, ArcDatum, DatumArc};
 
diff --git a/src/lib.rs b/src/lib.rs
index 433dd3f..e9f8f08 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -50,6 +50,9 @@ pub use kul_core::*;
 
 pub mod drop;
 
+#[cfg(feature = "sim_hooks")]
+pub mod sim_hooks;
+
 /// `Parser`s and related types and functions, provided for convenience, that
 /// use recommended types for instantiating many of the generic parameters of
 /// this crate, for common basic parsing applications.
diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
new file mode 100644
index 0000000..6cb9893
--- /dev/null
+++ b/src/sim_hooks.rs
@@ -0,0 +1,174 @@
+//! Instrumented stand-in for `std::sync::Arc`, for deterministic simulation of
+//! thread schedules.  Only present with the `sim_hooks` feature.
+//!
+//! Every operation on a reference count is announced to the current thread's
+//! hook, just before it is done, so that a simulator can decide which thread
+//! goes next.  The operations themselves are those of the real `Arc`.
+
+#![allow(missing_docs, clippy::missing_panics_doc, clippy::should_implement_trait)]
+
+use std::{
+    borrow::Borrow, cell::Cell, fmt, hash::{Hash, Hasher}, ops::Deref, sync,
+};
+
+
+/// The kinds of operations that are announced.
+#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
+pub enum Op {
+    New, Clone, Drop, TryUnwrap, GetMut, StrongCount, WeakCount, Downgrade,
+    WeakUpgrade, WeakClone, WeakDrop,
+}
+
+thread_local! {
+    static HOOK: Cell<Option<fn(Op)>> = const { Cell::new(None) };
+}
+
+/// Set, or clear, the current thread's hook.
+pub fn set_hook(hook: Option<fn(Op)>) {
+    HOOK.with(|h| h.set(hook));
+}
+
+fn announce(op: Op) {
+    if let Some(f) = HOOK.with(Cell::get) { f(op); }
+}
+
+
+/// Like `std::sync::Arc`.
+pub struct Arc<T>(Option<sync::Arc<T>>);
+
+impl<T> Arc<T> {
+    fn inner(&self) -> &sync::Arc<T> { self.0.as_ref().unwrap() }
+
+    pub fn new(val: T) -> Self {
+        announce(Op::New);
+        Self(Some(sync::Arc::new(val)))
+    }
+
+    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+        announce(Op::TryUnwrap);
+        sync::Arc::try_unwrap(this.0.take().unwrap()).map_err(|a| Self(Some(a)))
+    }
+
+    pub fn into_inner(mut this: Self) -> Option<T> {
+        announce(Op::TryUnwrap);
+        sync::Arc::try_unwrap(this.0.take().unwrap()).ok()
+    }
+
+    pub fn get_mut(this: &mut Self) -> Option<&mut T> {
+        announce(Op::GetMut);
+        sync::Arc::get_mut(this.0.as_mut().unwrap())
+    }
+
+    pub fn make_mut(this: &mut Self) -> &mut T
+        where T: Clone,
+    {
+        announce(Op::GetMut);
+        sync::Arc::make_mut(this.0.as_mut().unwrap())
+    }
+
+    pub fn strong_count(this: &Self) -> usize {
+        announce(Op::StrongCount);
+        sync::Arc::strong_count(this.inner())
+    }
+
+    pub fn weak_count(this: &Self) -> usize {
+        announce(Op::WeakCount);
+        sync::Arc::weak_count(this.inner())
+    }
+
+    pub fn downgrade(this: &Self) -> Weak<T> {
+        announce(Op::Downgrade);
+        Weak(sync::Arc::downgrade(this.inner()))
+    }
+
+    pub fn ptr_eq(this: &Self, other: &Self) -> bool {
+        sync::Arc::ptr_eq(this.inner(), other.inner())
+    }
+
+    pub fn as_ptr(this: &Self) -> *const T { sync::Arc::as_ptr(this.inner()) }
+}
+
+impl<T> Clone for Arc<T> {
+    fn clone(&self) -> Self {
+        announce(Op::Clone);
+        Self(self.0.clone())
+    }
+}
+
+impl<T> Drop for Arc<T> {
+    fn drop(&mut self) {
+        if self.0.is_some() { announce(Op::Drop); }
+    }
+}
+
+impl<T> Deref for Arc<T> {
+    type Target = T;
+    fn deref(&self) -> &T { self.inner() }
+}
+
+impl<T> AsRef<T> for Arc<T> {
+    fn as_ref(&self) -> &T { self }
+}
+
+impl<T> Borrow<T> for Arc<T> {
+    fn borrow(&self) -> &T { self }
+}
+
+impl<T> From<T> for Arc<T> {
+    fn from(val: T) -> Self { Self::new(val) }
+}
+
+impl<T: Default> Default for Arc<T> {
+    fn default() -> Self { Self::new(T::default()) }
+}
+
+impl<T: PartialEq> PartialEq for Arc<T> {
+    fn eq(&self, other: &Self) -> bool { **self == **other }
+}
+
+impl<T: Eq> Eq for Arc<T> {}
+
+impl<T: Hash> Hash for Arc<T> {
+    fn hash<H: Hasher>(&self, state: &mut H) { (**self).hash(state); }
+}
+
+impl<T: fmt::Debug> fmt::Debug for Arc<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
+}
+
+
+/// Like `std::sync::Weak`.
+pub struct Weak<T>(sync::Weak<T>);
+
+impl<T> Weak<T> {
+    pub fn new() -> Self { Self(sync::Weak::new()) }
+
+    pub fn upgrade(&self) -> Option<Arc<T>> {
+        announce(Op::WeakUpgrade);
+        self.0.upgrade().map(|a| Arc(Some(a)))
+    }
+
+    pub fn strong_count(&self) -> usize {
+        announce(Op::StrongCount);
+        self.0.strong_count()
+    }
+}
+
+impl<T> Default for Weak<T> {
+    fn default() -> Self { Self::new() }
+}
+
+impl<T> Clone for Weak<T> {
+    fn clone(&self) -> Self {
+        announce(Op::WeakClone);
+        Self(self.0.clone())
+    }
+}
+
+impl<T> Drop for Weak<T> {
+    fn drop(&mut self) { announce(Op::WeakDrop); }
+}
+
+impl<T> fmt::Debug for Weak<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
+}
-- 
2.43.0


From 4b979dfec7dec38bef566ee780116beeb3d3526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:22 +0000
Subject: [PATCH 2/5] fix: drop trees with shared branches in constant stack
 and linear work

When a branch could not be taken out because something else also refers
to it, the drop algorithm kept moving it around or gave up, and the rest
of the tree was then dropped recursively.  A long list whose elements are
one shared branch took quadratic work, and its drop overflowed the stack.
Such a branch is now released at once, like a leaf.
---
 src/drop.rs | 201 ++++++++++++++--------------------------------------
 1 file changed, 54 insertions(+), 147 deletions(-)

diff --git a/src/drop.rs b/src/drop.rs
index 86a0dd6..d3834aa 100644
--- a/src/drop.rs
+++ b/src/drop.rs
@@ -70,15 +70,15 @@ use Datum::EmptyList as TempLeaf;
 /// to take out the inner `Datum` values so that any weak references are
 /// invalidated and do not prevent us from doing the restructuring.  But
 /// unwrapping will fail when there are additional strong references to a
-/// `Datum`, and so we can't do the mutation and so we abort.  This is fine
-/// because when there are additional strong references then the referenced
-/// `Datum` won't be dropped anyway when our reference to it is dropped, and so
-/// drop-recursion down into its branches won't happen anyway.
+/// `Datum`, and so we can't do the mutation and so we treat it as if it were a
+/// leaf.  This is fine because when there are additional strong references then
+/// the referenced `Datum` won't be dropped anyway when our reference to it is
+/// dropped, and so drop-recursion down into its branches won't happen anyway.
 ///
 /// However, there is a possible race condition when `Arc` is used for the
 /// reference type where additional strong references are all dropped by other
-/// thread(s) after our attempted unwrapping fails (and so we'll abort) but
-/// before our drop finishes, and then we'll be left with the only strong
+/// thread(s) after our attempted unwrapping fails but before our drop of
+/// that reference finishes, and then we'll be left with the only strong
 /// reference and so the automatic drop-recursion will occur down into the
 /// `Datum`'s branches.  But this is usually not a problem because the
 /// drop-recursion will usually not go deep before our custom `Drop`
@@ -94,9 +94,6 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
     #[derive(PartialEq, Eq, Copy, Clone)]
     enum Class { Branch, Leaf }
 
-    #[derive(Copy, Clone)]
-    enum Side { Left, Right }
-
     // Note: We're assumimg that these closures can be optimized and inlined.
     // If not, they should be made into functions that can be.  Closures allow a
     // more convenient definition (the type annotations in them are needed,
@@ -122,49 +119,6 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
         }
     };
 
-    // Mode for locking the tree-node path pattern chosen for restructuring the
-    // tree, during each phase of iteration.  Needed to avoid possible infinite
-    // loops on repeating states, which could otherwise occur because this
-    // algorithm can potentially use either side of the branches to work with.
-    // If the unwrap-ability of the nodes, which affects which branch side is
-    // selected, and for types like `Arc` can change dynamically, has particular
-    // patterns, then repeating states could occur.
-    //
-    // E.g.:
-    // 1) left branch (B), right sub (E);
-    // 2) right branch (A) (original top), left sub (E) (sub of #1);
-    // 3) becomes #1 again, could repeat infinitely.
-    //
-    // By locking the mode, such repeated states are prevented, by allowing only
-    // one path pattern to be used for restructuring the tree, until the current
-    // phase has completed.  The mode is reset after a phase, so that all
-    // possible modes can again be available to process the remainder of the
-    // tree, which allows flexibility (i.e. ability to mutate either branch)
-    // when the `Datum` reference type uses something like `Rc` or `Arc` where
-    // unwrapping might fail when there are additional strong references to a
-    // subset of nodes.
-    let mut mode_lock: Option<Side> = None;
-
-    // let depth = |side, mut datum: &Datum<TT, ET, DR>| {
-    //     let mut depth: usize = 0;
-    //     loop {
-    //         match (side, datum) {
-    //             | (Side::Left, Combination{operator: side, ..})
-    //             | (Side::Right, Combination{operands: side, ..})
-    //             | (Side::Left, List{elem: side, ..})
-    //             | (Side::Right, List{next: side, ..})
-    //                 => {
-    //                     depth += 1;
-    //                     datum = Deref::deref(side);
-    //                 }
-    //             _ => break
-    //         }
-    //     }
-    //     depth
-    // };
-    // println!("algo1(left:{}, right:{})",
-    //          depth(Side::Left, &*top_dr), depth(Side::Right, &*top_dr));
-
     if let Class::Leaf = class(top_dr) {
         return; // Abort, do nothing
     }
@@ -174,127 +128,80 @@ pub fn algo1<TT, ET, DR>(top_dr: &mut DR)
     };
 
     loop {
-        // println!("  loop(left:{}, right:{})",
-        //          depth(Side::Left, &top_datum), depth(Side::Right, &top_datum));
-
         match top_datum {
           | Combination{operator: mut left_dr, operands: mut right_dr}
           | List{elem: mut left_dr, next: mut right_dr}
           => {
-              let (left_class, right_class) = (class(&left_dr), class(&right_dr));
-
-              // Try to select a side that also branches.  When both branch and
-              // we're not yet locked in a mode, give preference to the left
-              // side (which is often shallower than the right for long lists,
-              // which are the most common deep structure).  When locked in a
-              // mode, we must go with its side, until we reach its end.
-              let (mode, selected_datum, mut reuse_dr, other_class, other_dr)
-                  = match (mode_lock, left_class, right_class)
-              {
-                  // If the left node is a branch and we're either at the end of
-                  // a mode phase where the right node is a leaf, or we're
-                  // locked in left mode, we must be able to take out the left
-                  // datum to proceed.
-                  | (_, Class::Branch, Class::Leaf)
-                  | (Some(Side::Left), Class::Branch, Class::Branch)
+              // Select a side that also branches.  Whenever a branch cannot be
+              // taken out, because there are additional strong references to
+              // it, it is like a leaf: dropping our reference to it doesn't go
+              // down into it.
+              match (class(&left_dr), class(&right_dr)) {
+                  // If only the left node is a branch, we must be able to take
+                  // out its datum to proceed.  The top node is dropped here,
+                  // and the next loop iteration is on the left datum.
+                  (Class::Branch, Class::Leaf)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
-                          (Side::Left, left_datum, left_dr, right_class, right_dr)
+                          top_datum = left_datum;
                       } else {
                           // Abort, do nothing more, drop `left_dr` and `right_dr`
                           break
                       },
 
-                  // If the right node is a branch and we're either at the end
-                  // of a mode phase where the left node is a leaf, or we're
-                  // locked in right mode, we must be able to take out the right
-                  // datum to proceed.
-                  | (_, Class::Leaf, Class::Branch)
-                  | (Some(Side::Right), Class::Branch, Class::Branch)
+                  // If only the right node is a branch, likewise.
+                  (Class::Leaf, Class::Branch)
                   =>
                       if let Some(right_datum) = trytake(&mut right_dr) {
-                          (Side::Right, right_datum, right_dr, left_class, left_dr)
+                          top_datum = right_datum;
                       } else {
                           // Abort, do nothing more, drop `left_dr` and `right_dr`
                           break
                       },
 
-                  // If both nodes are branches and we're not locked in a mode,
-                  // we must be able to take out one of the datums to proceed.
-                  // Preference is given to the left datum, but the right can be
-                  // used instead.
-                  | (None, Class::Branch, Class::Branch)
+                  // If both nodes are branches, we restructure the tree
+                  // mutatively to reduce the branching depth of the left side
+                  // (without dropping any of our nodes yet), if its datum can
+                  // be taken out.  Always using the left side prevents infinite
+                  // loops of repeating restructuring states.
+                  (Class::Branch, Class::Branch)
                   =>
                       if let Some(left_datum) = trytake(&mut left_dr) {
-                          (Side::Left, left_datum, left_dr, right_class, right_dr)
-                      } else if let Some(right_datum) = trytake(&mut right_dr) {
-                          (Side::Right, right_datum, right_dr, left_class, left_dr)
+                          let (sub_left, sub_right) = match left_datum {
+                              | Combination{operator: left, operands: right}
+                              | List{elem: left, next: right}
+                              => (left, right),
+                              _ => unreachable!()
+                          };
+                          // Reuse `left_dr` and the `Datum` it refers to, for
+                          // the different purpose of being a new link and new
+                          // node in the restructured tree on the right side.
+                          // This is safe because `left_datum` was already taken
+                          // out of it.
+                          set(&mut left_dr, temp_branch(sub_right, right_dr));
+                          // The new top node of the restructured tree for the
+                          // next loop iteration, so it can be further
+                          // restructured so nodes can eventually be dropped.
+                          top_datum = temp_branch(sub_left, left_dr);
                       } else {
-                          // Abort, do nothing more, drop `left_dr` and `right_dr`
-                          break
+                          // Drop our reference to the left before trying the
+                          // right, because it might be the last thing that
+                          // prevents taking out the right datum (when both
+                          // refer to the same one).
+                          drop(left_dr);
+
+                          if let Some(right_datum) = trytake(&mut right_dr) {
+                              top_datum = right_datum;
+                          } else {
+                              // Abort, do nothing more, drop `right_dr`
+                              break
+                          }
                       },
 
                   // If neither left nor right is a branch, we're all done.
                   // Abort, do nothing more, drop `left_dr` and `right_dr`.
-                  | (_, Class::Leaf, Class::Leaf)
+                  (Class::Leaf, Class::Leaf)
                   => break
-              };
-
-              // Restructure or drop, and then iterate on branch next
-              match (selected_datum, other_class) {
-                  // If both sides are branches, we restructure the tree
-                  // mutatively to reduce the branching depth of the selected
-                  // side (without dropping any of our nodes yet)
-                  (   Combination{operator: sel_left, operands: sel_right}
-                    | List{elem: sel_left, next: sel_right},
-                   Class::Branch)
-                  => {
-                      // Reuse `reuse_dr` and the `Datum` it refers to, for the
-                      // different purpose of being a new link and new node in
-                      // the restructured tree on the opposite side.  This is
-                      // safe because `selected_datum` was already taken out of
-                      // it.
-                      let (oldsub, newsub_left, newsub_right) = match mode {
-                          Side::Left => (sel_left, sel_right, other_dr),
-                          Side::Right => (sel_right, other_dr, sel_left)
-                      };
-                      set(&mut reuse_dr, temp_branch(newsub_left, newsub_right));
-                      // The new top node of the restructured tree for the next
-                      // loop iteration, so it can be further restructured so
-                      // nodes can eventually be dropped.
-                      let (top_left, top_right) = match mode {
-                          Side::Left => (oldsub, reuse_dr),
-                          Side::Right => (reuse_dr, oldsub)
-                      };
-                      top_datum = temp_branch(top_left, top_right);
-                      // If mode wasn't locked yet, lock it to the path pattern
-                      // we were able to get, to prevent weird path pattern
-                      // alternations that could cause infinite loops of
-                      // repeating restructuring states
-                      if mode_lock.is_none() {
-                          mode_lock = Some(mode);
-                      }
-                  },
-
-                  // If the other side is a leaf, we allow the automatic
-                  // dropping of `left_dr` and `right_dr` (`reuse_dr` and
-                  // `other_dr`) that will occur here, because drop-recursion
-                  // down into the branch side is no longer possible (because it
-                  // is no longer a branch now that `selected_datum` was taken
-                  // out and replaced with a leaf).
-                  (selected_datum, Class::Leaf) => {
-                      // The new top node for the next loop iteration is the
-                      // side that does branch, so it can be further
-                      // restructured and dropped.
-                      top_datum = selected_datum;
-                      // Reset the mode to unlocked, now that the top node has
-                      // been removed from the tree.  Weird repeating states
-                      // aren't possible now (I think), so the next iteration is
-                      // allowed to select whatever path pattern it can.
-                      mode_lock = None;
-                  },
-
-                  _ => unreachable!()
               }
           },
 
-- 
2.43.0


From dcdeb81f12dca9ebba39fd203c4102b58673c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:03 +0000
Subject: [PATCH 3/5] fix: stop at the first error without parsing any further

The functions that collect results up to the first error asked the
parser for one more item after the error before stopping.  That ran the
macros of a further form and waited for more input.  They now stop as
soon as they have the error.
---
 core/src/premade/inmem.rs | 77 +++++++++++++++++++++++++++------------
 src/common/helper.rs      | 19 ++++------
 2 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/core/src/premade/inmem.rs b/core/src/premade/inmem.rs
index 3e3cdb1..84cbb1e 100644
--- a/core/src/premade/inmem.rs
+++ b/core/src/premade/inmem.rs
@@ -1,7 +1,7 @@
 //! A `Parser` for parsing inputs that are in-memory strings, for no-heap
 //! constrained applications.
 
-use core::iter::TakeWhile;
+use core::fmt;
 
 use crate::{
     Parser as ParserStruct, ParseIter, ParseIterItem, Combiner, Error, Text as _,
@@ -254,35 +254,64 @@ pub fn parse_text_with<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerErro
     // Note: Couldn't figure out how to make this work:
     // -> impl Iterator<Item = TopFormResult<'input, 'alloc, 'funs, 'bind,
     //                                       Extra, CombinerError>>
-    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError,
-                     impl FnMut(&Result<DatumType<'input, 'alloc, Extra>,
-                                        Error<StrPos<'input>, CombinerError>>)
-                                -> bool>
+    -> ParseTextWith<'t, 'p, 'input, 'alloc, 'funs, 'bind, Extra, CombinerError>
 where
     Extra: Eq,
 {
     let input_source_stream = input.iter();
-    let mut already_errored = false;
-    parser.parse(input_source_stream)
-          .take_while(move |r|
-                      if already_errored {
-                          false
-                      } else {
-                          if r.is_err() {
-                              already_errored = true;
-                          }
-                          true
-                      })
+    ParseTextWith {
+        iter: parser.parse(input_source_stream),
+        already_errored: false,
+    }
+}
+
+/// The `Iterator` returned by [`parse_text_with`].  After it has yielded an
+/// error, it does not parse any further.
+///
+/// [`parse_text_with`]: fn.parse_text_with.html
+pub struct ParseTextWith<'text, 'parser, 'input, 'alloc, 'funs, 'bind,
+                         Extra, CombinerError>
+where
+    Text<'input, 'alloc, Extra>: 'text,
+    Extra: Eq,
+{
+    iter: ParseIter<'parser,
+                    Parser<'input, 'alloc, 'funs, 'bind,
+                           Extra, CombinerError>,
+                    text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>,
+    already_errored: bool,
 }
 
-type ParseTextWith<'text, 'parser, 'input, 'alloc, 'funs, 'bind,
-                   Extra, CombinerError,
-                   Predicate>
-    = TakeWhile<ParseIter<'parser,
-                          Parser<'input, 'alloc, 'funs, 'bind,
-                                 Extra, CombinerError>,
-                          text::iter::Iter<'text, Text<'input, 'alloc, Extra>>>,
-                Predicate>;
+/// Manually implemented because deriving it doesn't work.
+impl<'text, 'input, 'alloc, Extra, CombinerError> fmt::Debug
+    for ParseTextWith<'text, '_, 'input, 'alloc, '_, '_, Extra, CombinerError>
+where
+    Text<'input, 'alloc, Extra>: 'text,
+    Extra: Eq,
+{
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "{}::ParseTextWith", module_path!())
+    }
+}
+
+impl<'text, 'input, 'alloc, Extra, CombinerError> Iterator
+    for ParseTextWith<'text, '_, 'input, 'alloc, '_, '_, Extra, CombinerError>
+where
+    Text<'input, 'alloc, Extra>: 'text,
+    Extra: Eq,
+{
+    type Item = Result<DatumType<'input, 'alloc, Extra>,
+                       Error<StrPos<'input>, CombinerError>>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.already_errored { return None }
+        let next = self.iter.next();
+        if let Some(Err(_)) = next {
+            self.already_errored = true;
+        }
+        next
+    }
+}
 
 
 #[cfg(test)]
diff --git a/src/common/helper.rs b/src/common/helper.rs
index ea51675..db5679e 100644
--- a/src/common/helper.rs
+++ b/src/common/helper.rs
@@ -14,15 +14,12 @@ pub(crate) fn collect_up_to_first_err<'p, CC, DA, OB, S>
           Parser<CC, DA, OB>: 'p,
           S: SourceStream<DA>,
 {
-    let mut already_errored = false;
-    pi.take_while(|r|
-                  if already_errored {
-                      false
-                  } else {
-                      if r.is_err() {
-                          already_errored = true;
-                      }
-                      true
-                  })
-      .collect()
+    let mut results = Vec::new();
+    for r in pi {
+        let errored = r.is_err();
+        results.push(r);
+        // Must not try to get another, because that would parse further.
+        if errored { break }
+    }
+    results
 }
-- 
2.43.0


From 0a230c8c15df570f1e381b8c7e8a7081c935ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:07 +0000
Subject: [PATCH 4/5] fix: hash long lists without recursion along them

Looking up an operator that is a form with very many elements in a hash
map of bindings overflowed the stack, because the derived hashing went
one call deeper for each element.  Equality already avoids that.  Hash
the rest of a list in a loop, too.
---
 core/src/datum.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/core/src/datum.rs b/core/src/datum.rs
index 38799ac..78a2637 100644
--- a/core/src/datum.rs
+++ b/core/src/datum.rs
@@ -1,5 +1,7 @@
 //! Datum type used in the abstract syntax tree (AST) returned by parsing.
 
+use core::hash::{Hash, Hasher};
+use core::mem::discriminant;
 use core::ops::Deref;
 
 
@@ -14,7 +16,7 @@ pub mod premade {
 /// by the `ExtraType` parameter, and it is parameterized over the `DatumRef`
 /// type used to refer to the other `Datum`s in an AST.  It can also be used for
 /// DAGs.
-#[derive(Copy, Clone, Eq, Hash, Debug)]
+#[derive(Copy, Clone, Eq, Debug)]
 pub enum Datum<TextType, ExtraType, DatumRef>
     where DatumRef: DerefTryMut<Target = Datum<TextType, ExtraType, DatumRef>>,
 {
@@ -93,6 +95,39 @@ impl<TT1, TT2, ET1, ET2, DR1, DR2>
 }
 
 
+/// Consistent with equality.  This avoids stack overflows for long lists, like
+/// our equality does (but can still overflow on other deep tree shapes, but
+/// those are rare).
+impl<TT, ET, DR> Hash for Datum<TT, ET, DR>
+    where DR: DerefTryMut<Target = Self>,
+          TT: Hash,
+          ET: Hash,
+{
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        use Datum::*;
+
+        let mut datum = self;
+        loop {
+            discriminant(datum).hash(state);
+            match datum {
+                Text(txt)
+                    => break txt.hash(state),
+                Combination{operator: left, operands: right}
+                | List{elem: left, next: right}
+                    => {
+                        (**left).hash(state);
+                        datum = &**right;
+                    },
+                EmptyNest | EmptyList
+                    => break,
+                Extra(et)
+                    => break et.hash(state),
+            }
+        }
+    }
+}
+
+
 /// Exists to be used similarly to but differently than
 /// [`DerefMut`](http://doc.rust-lang.org/std/ops/trait.DerefMut.html) so that
 /// types like [`Rc`](http://doc.rust-lang.org/std/rc/struct.Rc.html) and its
-- 
2.43.0


From 14e8a198ad59ca378e85d3eca017ab56822158e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:56:18 +0000
Subject: [PATCH 5/5] Offer more of the standard Arc's interface under
 sim_hooks

---
 src/sim_hooks.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/sim_hooks.rs b/src/sim_hooks.rs
index 6cb9893..bf2705e 100644
--- a/src/sim_hooks.rs
+++ b/src/sim_hooks.rs
@@ -8,7 +8,7 @@
 #![allow(missing_docs, clippy::missing_panics_doc, clippy::should_implement_trait)]
 
 use std::{
-    borrow::Borrow, cell::Cell, fmt, hash::{Hash, Hasher}, ops::Deref, sync,
+    borrow::Borrow, cell::Cell, cmp::Ordering, fmt, hash::{Hash, Hasher}, ops::Deref, sync,
 };
 
 
@@ -51,7 +51,14 @@ impl<T> Arc<T> {
 
     pub fn into_inner(mut this: Self) -> Option<T> {
         announce(Op::TryUnwrap);
-        sync::Arc::try_unwrap(this.0.take().unwrap()).ok()
+        sync::Arc::into_inner(this.0.take().unwrap())
+    }
+
+    pub fn unwrap_or_clone(mut this: Self) -> T
+        where T: Clone,
+    {
+        announce(Op::TryUnwrap);
+        sync::Arc::unwrap_or_clone(this.0.take().unwrap())
     }
 
     pub fn get_mut(this: &mut Self) -> Option<&mut T> {
@@ -128,6 +135,14 @@ impl<T: PartialEq> PartialEq for Arc<T> {
 
 impl<T: Eq> Eq for Arc<T> {}
 
+impl<T: PartialOrd> PartialOrd for Arc<T> {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { (**self).partial_cmp(&**other) }
+}
+
+impl<T: Ord> Ord for Arc<T> {
+    fn cmp(&self, other: &Self) -> Ordering { (**self).cmp(&**other) }
+}
+
 impl<T: Hash> Hash for Arc<T> {
     fn hash<H: Hasher>(&self, state: &mut H) { (**self).hash(state); }
 }
@@ -152,6 +167,15 @@ impl<T> Weak<T> {
         announce(Op::StrongCount);
         self.0.strong_count()
     }
+
+    pub fn weak_count(&self) -> usize {
+        announce(Op::WeakCount);
+        self.0.weak_count()
+    }
+
+    pub fn ptr_eq(&self, other: &Self) -> bool { self.0.ptr_eq(&other.0) }
+
+    pub fn as_ptr(&self) -> *const T { self.0.as_ptr() }
 }
 
 impl<T> Default for Weak<T> {
-- 
2.43.0

