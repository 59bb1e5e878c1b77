From 36b92c7b06470d8a1fb69430d254a5f45f3815c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 01/23] fix: bind_for_each must not lose values yielded just
 before the end of incoming_changes

When the incoming stream yielded values and then ended within a single poll,
the future returned before storing the last value.
---
 x-bow/src/path_ext/bind_for_each.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 70020e0..a017c9e 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -39,13 +39,15 @@ where
         let mut this = self.project();
 
         let mut val = None;
+        let mut ended = false;
         loop {
             match this.incoming.as_mut().poll_next(cx) {
                 Poll::Ready(Some(v)) => {
                     val = Some(v);
                 }
                 Poll::Ready(None) => {
-                    return Poll::Ready(());
+                    ended = true;
+                    break;
                 }
                 Poll::Pending => break,
             }
@@ -58,6 +60,9 @@ where
             }
             let _ = this.until_change.as_mut().poll_next(cx);
         }
+        if ended {
+            return Poll::Ready(());
+        }
 
         let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
-- 
2.43.0


From d9d1728f6ca13a6223e5550585d6cde1ad6560bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 02/23] fix: dropping a mounted root must not let descendants
 detach themselves

---
 async_ui_web_core/src/node_container.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index ca5858e..093897a 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -85,8 +85,10 @@ impl<C> PinnedDrop for ContainerNodeFuture<C> {
                 })
             }
         } else {
-            // we didn't add our node
+            // we didn't add our node, so we remove what was rendered inside it;
+            // the descendants, which are dropped after this, must not try to
             let this = self.project();
+            this.drop.block_until_drop();
             DomContext::Container {
                 group: this.group,
                 container: this.container,
-- 
2.43.0


From 79b0cb26751b45e4702416065c2ba8326fb7239a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 03/23] fix: DynamicList must put items before an unknown key
 at the end instead of panicking

---
 async_ui_web/src/lists/dynamic_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index b51ec0c..221be69 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -125,7 +125,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|stored| &stored.start_marker)
             .unwrap_or(&self.list_end_marker);
         container
             .insert_before(&end_marker, Some(after))
@@ -215,7 +216,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let inner = self.inner.borrow();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|stored| &stored.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
         let container = inner.containing_node.get();
-- 
2.43.0


From 274ad251473f045250452e940e70e8a2b6a02e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 04/23] fix: DynamicList::move_before must leave an item moved
 before itself in place

---
 async_ui_web/src/lists/dynamic_list.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 221be69..cafa4a2 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -220,6 +220,10 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             .map(|stored| &stored.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
+        if after.is_same_node(Some(&to_move.start_marker)) {
+            // moving an item to just before itself
+            return;
+        }
         let container = inner.containing_node.get();
         move_nodes_before(
             container,
-- 
2.43.0


From 712bf4b8559bc3ca2fe573d67d61490b0298441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:05 +0000
Subject: [PATCH 05/23] fix: DynamicList::swap of two adjacent items

---
 async_ui_web/src/lists/dynamic_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index cafa4a2..6441b12 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -253,6 +253,16 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
         let after_key_1 = item_1.end_marker.next_sibling();
         let container = inner.containing_node.get();
+        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
+            // item 2 directly follows item 1, so it suffices to move it to the front
+            move_nodes_before(
+                container,
+                &item_2.start_marker,
+                &item_2.end_marker,
+                Some(&item_1.start_marker),
+            );
+            return;
+        }
         move_nodes_before(
             container,
             &item_1.start_marker,
-- 
2.43.0


From ad78cc93b2f1ea5ab5d67f91319f9ae70e93bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:22 +0000
Subject: [PATCH 06/23] fix: DiffedList::update must not place items relative
 to already moved ones

---
 async_ui_web/src/lists/diffed_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/lists/diffed_list.rs b/async_ui_web/src/lists/diffed_list.rs
index 7167fbd..c6b8405 100644
--- a/async_ui_web/src/lists/diffed_list.rs
+++ b/async_ui_web/src/lists/diffed_list.rs
@@ -91,6 +91,11 @@ where
         let mut prev_keys_set = prev_keys_list.iter().collect::<HashSet<_>>();
         let mut prev_keys_iter = prev_keys_list.iter().peekable();
         for key in new_keys.iter() {
+            // skip the previous keys that we have already put in their new places
+            while prev_keys_iter
+                .next_if(|key| !prev_keys_set.contains(*key))
+                .is_some()
+            {}
             if prev_keys_set.remove(key) {
                 if prev_keys_iter.next_if_eq(&key).is_some() {
                     continue;
-- 
2.43.0


From ade4f2c0c0610eff25a8a058ba433aaef00dca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 07/23] fix: a rendered DynamicList must keep its place when
 earlier siblings render later

---
 async_ui_web/src/lists/dynamic_list.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 6441b12..9c712ea 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -308,24 +308,19 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     ///
     /// This async method never completes.
     pub async fn render(&self) {
-        let real_containing_node;
+        // This comment node holds our position among the siblings for as long
+        // as we are rendering. Siblings rendered later are placed around it.
+        let position_marker: web_sys::Node = Comment::new().unwrap_throw().into();
+        let mut position_marker_fut =
+            ContainerNodeFuture::new(pending::<()>(), position_marker.clone());
         {
             use async_ui_internal_utils::dummy_waker::dummy_waker;
             use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
-            let mut insert_marker_fut =
-                ContainerNodeFuture::new(pending::<()>(), self.list_start_marker.clone());
-            let _ = Pin::new(&mut insert_marker_fut).poll(&mut context);
-            real_containing_node = self.list_start_marker.parent_node().unwrap_throw();
-            real_containing_node
-                .insert_before(&self.list_end_marker, Some(&self.list_start_marker))
-                .unwrap_throw();
-            drop(insert_marker_fut);
-            real_containing_node
-                .insert_before(&self.list_start_marker, Some(&self.list_end_marker))
-                .unwrap_throw();
+            let _ = Pin::new(&mut position_marker_fut).poll(&mut context);
         }
+        let real_containing_node = position_marker.parent_node().unwrap_throw();
         let stored_fragment;
         {
             let mut inner = self.inner.borrow_mut();
@@ -335,8 +330,12 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             ) {
                 ContainingNode::Real(_) => panic!("rendering in more than one places not allowed"),
                 ContainingNode::Fake(fragment) => {
+                    // the fragment includes the list's start and end markers
                     real_containing_node
-                        .insert_before(fragment.as_ref(), Some(&self.list_end_marker))
+                        .insert_before(
+                            fragment.as_ref(),
+                            position_marker.next_sibling().as_ref(),
+                        )
                         .unwrap_throw();
                     stored_fragment = fragment;
                 }
-- 
2.43.0


From fc5010cc5fa582447351afc66509b01cfbff8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 08/23] fix: a DynamicList inside another list's item must use
 the node it is currently in

---
 async_ui_web/src/lists/dynamic_list.rs | 56 +++++++++++---------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 9c712ea..72a8e56 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -14,7 +14,7 @@ use web_sys::{Comment, DocumentFragment};
 
 #[derive(Clone, Debug)]
 enum ContainingNode {
-    Real(web_sys::Node),
+    Real,
     Fake(DocumentFragment),
 }
 
@@ -69,15 +69,6 @@ struct Stored<F: Future> {
     end_marker: web_sys::Node,
 }
 
-impl ContainingNode {
-    fn get(&self) -> &web_sys::Node {
-        match self {
-            ContainingNode::Real(real) => real,
-            ContainingNode::Fake(fake) => fake,
-        }
-    }
-}
-
 impl<'c, K: Eq + Hash, F: Future + 'c> Default for DynamicList<'c, K, F> {
     fn default() -> Self {
         Self::new()
@@ -103,6 +94,14 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
     }
 
+    /// The node the list's nodes are currently in.
+    /// We don't remember this from when the rendering began, because if this list
+    /// is rendered directly in an item of another list then our nodes can be
+    /// moved along with that list.
+    fn containing_node(&self) -> web_sys::Node {
+        self.list_end_marker.parent_node().unwrap_throw()
+    }
+
     /// Insert a future to render in the list.
     ///
     /// You supply a key along with the future to render.
@@ -121,7 +120,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Time complexity: O(1) in Rust/JS code.
     pub fn insert(&self, key: K, future: F, before: Option<&K>) -> bool {
         let mut inner = self.inner.borrow_mut();
-        let container = inner.containing_node.get();
+        let container = self.containing_node();
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
@@ -150,7 +149,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.insert(key, stored)
         {
             drop(task);
-            let container = inner.containing_node.get();
+            let container = self.containing_node();
             let _ = container.remove_child(&start_marker).unwrap_throw();
             let _ = container.remove_child(&end_marker).unwrap_throw();
             true
@@ -177,7 +176,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }) = inner.items.remove(key)
         {
             drop(task);
-            let container = inner.containing_node.get();
+            let container = self.containing_node();
             let _ = container.remove_child(&start_marker).unwrap_throw();
             let _ = container.remove_child(&end_marker).unwrap_throw();
             true
@@ -224,9 +223,9 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             // moving an item to just before itself
             return;
         }
-        let container = inner.containing_node.get();
+        let container = self.containing_node();
         move_nodes_before(
-            container,
+            &container,
             &to_move.start_marker,
             &to_move.end_marker,
             Some(after),
@@ -252,11 +251,11 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             return;
         }
         let after_key_1 = item_1.end_marker.next_sibling();
-        let container = inner.containing_node.get();
+        let container = self.containing_node();
         if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
             // item 2 directly follows item 1, so it suffices to move it to the front
             move_nodes_before(
-                container,
+                &container,
                 &item_2.start_marker,
                 &item_2.end_marker,
                 Some(&item_1.start_marker),
@@ -264,13 +263,13 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             return;
         }
         move_nodes_before(
-            container,
+            &container,
             &item_1.start_marker,
             &item_1.end_marker,
             Some(&item_2.start_marker),
         );
         move_nodes_before(
-            container,
+            &container,
             &item_2.start_marker,
             &item_2.end_marker,
             after_key_1.as_ref(),
@@ -289,11 +288,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// Items for which `func` returns `false` will be removed.
     pub fn retain(&self, mut func: impl FnMut(&K) -> bool) {
         let inner = &mut *self.inner.borrow_mut();
-        let DynamicListInner {
-            items,
-            containing_node,
-        } = inner;
-        let container = containing_node.get();
+        let DynamicListInner { items, .. } = inner;
+        let container = self.containing_node();
         items.retain(|key, value| {
             let keep = func(key);
             if !keep {
@@ -324,18 +320,12 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let stored_fragment;
         {
             let mut inner = self.inner.borrow_mut();
-            match std::mem::replace(
-                &mut inner.containing_node,
-                ContainingNode::Real(real_containing_node.clone()),
-            ) {
-                ContainingNode::Real(_) => panic!("rendering in more than one places not allowed"),
+            match std::mem::replace(&mut inner.containing_node, ContainingNode::Real) {
+                ContainingNode::Real => panic!("rendering in more than one places not allowed"),
                 ContainingNode::Fake(fragment) => {
                     // the fragment includes the list's start and end markers
                     real_containing_node
-                        .insert_before(
-                            fragment.as_ref(),
-                            position_marker.next_sibling().as_ref(),
-                        )
+                        .insert_before(fragment.as_ref(), position_marker.next_sibling().as_ref())
                         .unwrap_throw();
                     stored_fragment = fragment;
                 }
-- 
2.43.0


From 2397a6a390fcd893788292d564f8bf4a69db8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 09/23] fix: DynamicSlot must not be borrowed while it drops a
 replaced future

---
 async_ui_web/src/components/dynamic_slot.rs | 34 +++++++++++++--------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2beb001..2845017 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -72,17 +72,20 @@ impl<F: Future> DynamicSlot<F> {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
         poll_fn(|cx| {
-            {
+            let message = {
                 let mut channel = self.channel.borrow_mut();
-                match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
-                    Message::Clear => fut_slot.set(None),
-                    Message::NoChange => {}
-                }
                 // if the Waker in the channel is outdated, update it
                 if !channel.0.will_wake(cx.waker()) {
                     channel.0 = cx.waker().to_owned();
                 }
+                std::mem::replace(&mut channel.1, Message::NoChange)
+            };
+            // the channel is not borrowed here because dropping the previous
+            // Future might use the slot
+            match message {
+                Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                Message::Clear => fut_slot.set(None),
+                Message::NoChange => {}
             }
             // poll the Future in the slot, if there is one
             if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
@@ -95,15 +98,22 @@ impl<F: Future> DynamicSlot<F> {
 
     /// Set the future to render in the slot, dropping the previous one.
     pub fn set_future(&self, fut: F) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Set(fut);
-        channel.0.wake_by_ref();
+        self.send(Message::Set(fut));
     }
 
     /// Remove the future currently rendering in the slot (if any).
     pub fn clear_future(&self) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Clear;
-        channel.0.wake_by_ref();
+        self.send(Message::Clear);
+    }
+
+    fn send(&self, message: Message<F>) {
+        let previous = {
+            let mut channel = self.channel.borrow_mut();
+            let previous = std::mem::replace(&mut channel.1, message);
+            channel.0.wake_by_ref();
+            previous
+        };
+        // not while the channel is borrowed: this might use the slot
+        drop(previous);
     }
 }
-- 
2.43.0


From eed9467a7b6b8ddbbe44da9e040d08413b6818d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:49 +0000
Subject: [PATCH 10/23] fix: DynamicSlot must not poll a completed future again

---
 async_ui_web/src/components/dynamic_slot.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2845017..1b4286b 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -71,6 +71,8 @@ impl<F: Future> DynamicSlot<F> {
     pub async fn render(&self) {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
+        // whether or not the Future in the slot has completed
+        let mut completed = false;
         poll_fn(|cx| {
             let message = {
                 let mut channel = self.channel.borrow_mut();
@@ -83,13 +85,16 @@ impl<F: Future> DynamicSlot<F> {
             // the channel is not borrowed here because dropping the previous
             // Future might use the slot
             match message {
-                Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                Message::Set(new_fut) => {
+                    fut_slot.set(Some(new_fut));
+                    completed = false;
+                }
                 Message::Clear => fut_slot.set(None),
                 Message::NoChange => {}
             }
-            // poll the Future in the slot, if there is one
-            if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
-                let _ = fut.poll(cx);
+            // poll the Future in the slot, if there is one and it hasn't completed
+            if let Some(fut) = fut_slot.as_mut().as_pin_mut().filter(|_| !completed) {
+                completed = fut.poll(cx).is_ready();
             }
             Poll::Pending
         })
-- 
2.43.0


From e5f57df7f77eb14608ce0e6b970c1aa557439ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 11/23] fix: a DynamicList item that removes itself must keep
 its place until it yields

---
 async_ui_web/src/lists/dynamic_list.rs | 55 +++++++++++++++-----------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 72a8e56..0f47056 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -5,6 +5,7 @@ use std::{
     future::{pending, Future},
     hash::Hash,
     pin::Pin,
+    rc::Rc,
 };
 
 use async_executor::{LocalExecutor, Task};
@@ -67,6 +68,23 @@ struct Stored<F: Future> {
     task: Task<F::Output>,
     start_marker: web_sys::Node,
     end_marker: web_sys::Node,
+    remove_markers: Rc<RemoveOnDrop>,
+}
+
+/// Removes an item's markers from the document.
+/// This is shared between [Stored] and the item's task, because an item that
+/// was removed from the list still exists until it next yields, and until then
+/// what it renders must have its place.
+struct RemoveOnDrop([web_sys::Node; 2]);
+
+impl Drop for RemoveOnDrop {
+    fn drop(&mut self) {
+        for marker in &self.0 {
+            if let Some(container) = marker.parent_node() {
+                let _ = container.remove_child(marker).unwrap_throw();
+            }
+        }
+    }
 }
 
 impl<'c, K: Eq + Hash, F: Future + 'c> Default for DynamicList<'c, K, F> {
@@ -134,24 +152,27 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             .insert_before(&start_marker, Some(&end_marker))
             .unwrap_throw();
         let end_marker_cloned = end_marker.clone();
-        let task = self
-            .executor
-            .spawn(SiblingNodeFuture::new(future, end_marker_cloned));
+        let remove_markers = Rc::new(RemoveOnDrop([start_marker.clone(), end_marker.clone()]));
+        let remove_markers_cloned = remove_markers.clone();
+        let future = SiblingNodeFuture::new(future, end_marker_cloned);
+        let task = self.executor.spawn(async move {
+            let _remove_markers = remove_markers_cloned;
+            future.await
+        });
         let stored = Stored {
             task,
             start_marker,
             end_marker,
+            remove_markers,
         };
         if let Some(Stored {
             task,
-            start_marker,
-            end_marker,
+            remove_markers,
+            ..
         }) = inner.items.insert(key, stored)
         {
             drop(task);
-            let container = self.containing_node();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+            drop(remove_markers);
             true
         } else {
             false
@@ -170,15 +191,13 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let mut inner = self.inner.borrow_mut();
         if let Some(Stored {
-            start_marker,
-            end_marker,
             task,
+            remove_markers,
+            ..
         }) = inner.items.remove(key)
         {
             drop(task);
-            let container = self.containing_node();
-            let _ = container.remove_child(&start_marker).unwrap_throw();
-            let _ = container.remove_child(&end_marker).unwrap_throw();
+            drop(remove_markers);
             true
         } else {
             false
@@ -289,15 +308,7 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     pub fn retain(&self, mut func: impl FnMut(&K) -> bool) {
         let inner = &mut *self.inner.borrow_mut();
         let DynamicListInner { items, .. } = inner;
-        let container = self.containing_node();
-        items.retain(|key, value| {
-            let keep = func(key);
-            if !keep {
-                container.remove_child(&value.start_marker).unwrap_throw();
-                container.remove_child(&value.end_marker).unwrap_throw();
-            }
-            keep
-        });
+        items.retain(|key, _| func(key));
     }
 
     /// Render the list here.
-- 
2.43.0


From 5ed58e7000081f853da786cd1e67bf55124ac545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:12 +0000
Subject: [PATCH 12/23] fix: tasks spawned before anything is mounted must run

---
 async_ui_web/src/executor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/executor.rs b/async_ui_web/src/executor.rs
index 85ffaac..142fe5c 100644
--- a/async_ui_web/src/executor.rs
+++ b/async_ui_web/src/executor.rs
@@ -6,7 +6,7 @@
 use std::{cell::OnceCell, future::pending};
 
 use async_executor::LocalExecutor;
-use async_ui_web_core::executor::set_executor_future;
+use async_ui_web_core::executor::{schedule, set_executor_future};
 
 thread_local! {
     static EXECUTOR: OnceCell<&'static LocalExecutor<'static>> = OnceCell::new();
@@ -28,6 +28,8 @@ pub fn get_executor() -> &'static LocalExecutor<'static> {
         *cell.get_or_init(|| {
             let exe = Box::leak(Box::new(LocalExecutor::new()));
             set_executor_future(Box::new(exe.run(pending())));
+            // the executor can only be woken by its tasks after it has been polled once
+            schedule();
             exe
         })
     })
-- 
2.43.0


From f20bef2965b2b8889ae92983362ffd4c24f3ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 13/23] fix: dropping a capturing event stream must remove its
 listener

---
 async_ui_web_html/src/event_handling.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_html/src/event_handling.rs b/async_ui_web_html/src/event_handling.rs
index 28c1275..8d4432a 100644
--- a/async_ui_web_html/src/event_handling.rs
+++ b/async_ui_web_html/src/event_handling.rs
@@ -29,6 +29,7 @@ pub struct EventFutureStream<E> {
     closure: Option<Closure<dyn Fn(web_sys::Event)>>,
     shared: Rc<RefCell<(Option<E>, Waker)>>,
     options: Option<AddEventListenerOptions>,
+    capture: bool,
     event_name: Cow<'static, str>,
 }
 
@@ -41,6 +42,7 @@ impl<E: JsCast> EventFutureStream<E> {
             closure: None,
             shared: Rc::new(RefCell::new((None, dummy_waker()))),
             options: None,
+            capture: false,
             event_name,
         }
     }
@@ -53,6 +55,7 @@ impl<E: JsCast> EventFutureStream<E> {
     ///
     /// This needs to be set *before* you first poll the stream.
     pub fn set_capture(&mut self, capture: bool) {
+        self.capture = capture;
         self.options
             .get_or_insert_with(AddEventListenerOptions::new)
             .capture(capture);
@@ -160,9 +163,11 @@ impl<E> Drop for EventFutureStream<E> {
     fn drop(&mut self) {
         if let Some(callback) = self.closure.take() {
             self.target
-                .remove_event_listener_with_callback(
+                .remove_event_listener_with_callback_and_bool(
                     &self.event_name,
                     callback.as_ref().unchecked_ref(),
+                    // must be the same as when the listener was added
+                    self.capture,
                 )
                 .unwrap_throw();
         }
-- 
2.43.0


From 9e52b5845b3e10d62c004bce5e22175e604860bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 14/23] fix: Dropdown::update_options must not place options
 relative to already moved ones

---
 async_ui_web/src/components/dropdown.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index b592c80..8bb1054 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -133,6 +133,11 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
         let mut new_opts_list = Vec::new();
         for (opt, text) in new_opts {
+            // skip the previous options that we have already put in their new places
+            while prev_opts_iter
+                .next_if(|opt| !prev_opts_set.contains(*opt))
+                .is_some()
+            {}
             let should_put = if prev_opts_set.remove(&opt) {
                 prev_opts_iter.next_if_eq(&&opt).is_none()
             } else {
-- 
2.43.0


From a86f16821973707c8f2d817f2d1585fa5327abbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 15/23] fix: deselecting in a Dropdown must not select an
 option without text

---
 async_ui_web/src/components/dropdown.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 8bb1054..4b16b9e 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,7 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
-        self.select.set_value("");
+        self.select.set_selected_index(-1);
     }
     /// Set the options to be displayed in the dropdown.
     ///
@@ -168,7 +168,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         if let Some(sel) = selected.as_ref().and_then(|k| map.get(k)) {
             sel.set_selected(true);
         } else {
-            self.select.set_value("");
+            self.select.set_selected_index(-1);
         }
     }
     pub async fn render(&self) {
-- 
2.43.0


From a5e9db599f9cc01cae86c4a0e687e68a54af3f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 16/23] fix: Dropdown::value must be None when nothing is
 selected

---
 async_ui_web/src/components/dropdown.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 4b16b9e..225fb2f 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,6 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
+        self.inner.borrow_mut().selected = None;
         self.select.set_selected_index(-1);
     }
     /// Set the options to be displayed in the dropdown.
@@ -127,7 +128,9 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
             prev_opts_list,
             map,
         } = &mut *bm;
-        *selected = current_value;
+        if current_value.is_some() {
+            *selected = current_value;
+        }
 
         let mut prev_opts_set = prev_opts_list.iter().collect::<HashSet<_>>();
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
@@ -192,6 +195,5 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         (si >= 0)
             .then(|| inner.prev_opts_list.get(si as usize).cloned())
             .flatten()
-            .or_else(|| inner.selected.clone())
     }
 }
-- 
2.43.0


From 5333f2e44db3632ec2ae4f065caef1a1bf36e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 17/23] fix: an element rendered again must not show what it
 showed before

---
 async_ui_web_core/src/node_container.rs | 26 ++++++++++---------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index 093897a..29f1d51 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -77,23 +77,17 @@ impl<C: Future> Future for ContainerNodeFuture<C> {
 #[pinned_drop]
 impl<C> PinnedDrop for ContainerNodeFuture<C> {
     fn drop(self: Pin<&mut Self>) {
-        if matches!(self.add_self, AddSelfMode::Added) {
+        let this = self.project();
+        if !this.drop.block_until_drop() && matches!(this.add_self, AddSelfMode::Added) {
             // we added our node, we should remove it
-            if !self.drop.block_until_drop() {
-                DOM_CONTEXT.with(|ctx| {
-                    ctx.remove_child(ChildPosition::default());
-                })
-            }
-        } else {
-            // we didn't add our node, so we remove what was rendered inside it;
-            // the descendants, which are dropped after this, must not try to
-            let this = self.project();
-            this.drop.block_until_drop();
-            DomContext::Container {
-                group: this.group,
-                container: this.container,
-            }
-            .remove_child(ChildPosition::default());
+            DOM_CONTEXT.with(|ctx| {
+                ctx.remove_child(ChildPosition::default());
+            })
+        }
+        // the descendants, which are dropped after this, won't remove their nodes from
+        // our node, which the user might keep and render again
+        for child in this.group.borrow_mut().values() {
+            this.container.remove_child(child).ok();
         }
     }
 }
-- 
2.43.0


From 758613a26e1dd714dac80d1b2d20fb54d567ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 18/23] fix: VirtualizedList must not start its range behind
 the last item

Scrolled far beyond the last item (after the number of items went down, or
with content behind the list) the start of the range exceeded its end. The
front spacer then grew beyond the size of the list, without end.
---
 async_ui_web/src/lists/virtualized_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 507a6f1..10bfd47 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -196,9 +196,10 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         } else {
             root_size / 4.0
         };
-        let new_start = ((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize;
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
+        let new_start = (((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize)
+            .min(new_end);
 
         let preferred_height_f = avg_size * new_start as f64;
         let preferred_height_b = avg_size * (state.num_items - new_end) as f64;
-- 
2.43.0


From c61c7213b66099291ec36b6bde4016e1f70937c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 19/23] fix: VirtualizedList must follow set_num_items wherever
 the viewport is

When the spacers were far from the viewport the new number was ignored, so
that items that no longer exist stayed rendered and the spacers kept their
size. Update from the rendering future, where the items of earlier updates
have been rendered and can be measured.
---
 async_ui_web/src/lists/virtualized_list.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 10bfd47..084a571 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -56,6 +56,9 @@ struct State<Updater> {
     renderer: Updater,
     range: Range<usize>,
     num_items: usize,
+    /// Whether what is rendered must be chosen anew even if it extends far
+    /// enough in both directions.
+    outdated: bool,
 }
 
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
@@ -103,6 +106,7 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             renderer,
             range: 0..0,
             num_items: 0,
+            outdated: false,
         };
         let signal = Rc::new(ReactiveCell::new(()));
         let signal_cloned = signal.clone();
@@ -127,8 +131,14 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
     }
     /// How many items does the list have?
     pub fn set_num_items(&self, num: usize) {
-        self.state.borrow_mut().num_items = num;
-        self.update_visible();
+        {
+            let mut state = self.state.borrow_mut();
+            state.outdated |= state.num_items != num;
+            state.num_items = num;
+        }
+        // Sizes can only be measured once the items of earlier updates are
+        // rendered, so leave the updating to the rendering future.
+        self.signal.borrow_mut();
     }
     #[doc(hidden)]
     pub fn force_update(&self, _range: impl RangeBounds<usize>) {
@@ -184,7 +194,9 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let root_size = rect_root.1 - rect_root.0;
         let tres_size = root_size * 1.25;
         let pad_size = root_size * 2.0;
-        if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
+        let outdated = std::mem::take(&mut state.outdated);
+        if !outdated
+            && (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
         {
             return;
-- 
2.43.0


From 361d0e7163b926647f0cc7592d852e518bc01273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 20/23] fix: VirtualizedList must measure its items after
 having guessed their size

With no item rendered the size is a guess. Nothing made the list look again,
so small items left the viewport blank.
---
 async_ui_web/src/lists/virtualized_list.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 084a571..045b2d7 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -8,7 +8,7 @@ use std::{
 
 use async_ui_internal_utils::reactive_cell::ReactiveCell;
 use async_ui_web_core::{combinators::join, ContainerNodeFuture};
-use futures_lite::{Future, StreamExt};
+use futures_lite::{future::yield_now, Future, StreamExt};
 use wasm_bindgen::{prelude::Closure, JsCast, JsValue, UnwrapThrowExt};
 use web_sys::{Element, HtmlElement, IntersectionObserver, IntersectionObserverInit};
 
@@ -174,6 +174,12 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             loop {
                 uc.next().await;
                 self.update_visible();
+                // The items must be rendered before they can be measured. (The list's
+                // executor may pause once while it renders them, and one of them may
+                // wake us before that, so yield three times.)
+                for _ in 0..3 {
+                    yield_now().await;
+                }
             }
         }))
         .await;
@@ -239,6 +245,11 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
             self.list.insert(to_add, (state.renderer)(to_add), None);
         }
         state.range = new_start..new_end;
+        if num_visible == 0 && new_start < new_end {
+            // We had to guess the size. Look again once the items are there to be measured.
+            state.outdated = true;
+            self.signal.borrow_mut();
+        }
     }
 }
 
-- 
2.43.0


From b6f83fdec2e6b1f7b6460d2f64554d15defe7afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:34 +0000
Subject: [PATCH 21/23] fix: for_each_async must not hold the store borrowed
 while dropping the superseded future

---
 x-bow/src/path_ext/for_each_async.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/x-bow/src/path_ext/for_each_async.rs b/x-bow/src/path_ext/for_each_async.rs
index 73414a1..cdd60e4 100644
--- a/x-bow/src/path_ext/for_each_async.rs
+++ b/x-bow/src/path_ext/for_each_async.rs
@@ -41,9 +41,11 @@ impl<'a, P: Path + ?Sized, F: Future<Output = ()>, C: FnMut(&P::Out) -> F + Unpi
         let mut this = self.project();
         let first = !this.until_change.has_been_polled();
         if first | Pin::new(this.until_change).poll_next(cx).is_ready() {
-            if let Some(data) = this.path.borrow_opt().as_deref() {
-                let fut = (this.closure)(data);
-                this.future.set(Some(fut));
+            // End the borrow of the data before dropping the superseded future,
+            // whose destructor may access the store.
+            let fut = this.path.borrow_opt().as_deref().map(this.closure);
+            if fut.is_some() {
+                this.future.set(fut);
             }
         }
         if let Some(fut) = this.future.as_mut().as_pin_mut() {
-- 
2.43.0


From 0dc539c89e0799cd708cda42edb64dc9ff12d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 22/23] fix: css! must escape the style sheet's text for the
 JavaScript template literal it is put into

---
 async_ui_web_macros/src/css.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 80e1935..9492bef 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -37,9 +37,14 @@ fn generate(input: String) -> TokenStream {
     let style_var_name = format_ident!("style_{postfix}");
     let dce_hack_fn_name = format_ident!("style_{postfix}_dep");
 
+    // the text goes into a JS template literal
+    let js_text = output
+        .replace('\\', "\\\\")
+        .replace('`', "\\`")
+        .replace("${", "\\${");
     let js_content = format!(
         "
-export const {style_var_name} = `{output}`;
+export const {style_var_name} = `{js_text}`;
 document.head.appendChild(document.createElement(\"style\")).innerHTML = {style_var_name};
         "
     );
-- 
2.43.0


From 1cce3f5982f957f81571f9860c74db6b6b291c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:06 +0000
Subject: [PATCH 23/23] fix: css! must recognise at-rules whatever the case of
 their names

---
 async_ui_web_macros/src/css.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_macros/src/css.rs b/async_ui_web_macros/src/css.rs
index 9492bef..481ec58 100644
--- a/async_ui_web_macros/src/css.rs
+++ b/async_ui_web_macros/src/css.rs
@@ -171,7 +171,8 @@ mod find_classes {
             input: &mut Parser<'i, 't>,
         ) -> Result<Self::Prelude, cssparser::ParseError<'i, Self::Error>> {
             drain_input(input)?;
-            match &*name {
+            // at-rule names are case-insensitive
+            match &*name.to_ascii_lowercase() {
                 "media" | "supports" | "container" | "layer" => Ok(true),
                 _ => Ok(false),
             }
-- 
2.43.0

