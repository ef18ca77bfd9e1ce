From dcb424a49a079a9c09bc130f988f4d8f479f0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 1/5] fix: don't stop iterating children when the current child
 is detached

The child iterators keep the element they returned last and look up its
sibling on the next call. In a mutable tree that element may have been
detached in between, and a detached element has no siblings, so the
iteration ended early: `for c in node.children() { c.detach() }` and
`splice_children(0..2, ..)` both detached just one child.
---
 src/cursor.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index 1288620..4ffd207 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1386,6 +1386,16 @@ impl SyntaxNodeChildren {
 impl Iterator for SyntaxNodeChildren {
     type Item = SyntaxNode;
     fn next(&mut self) -> Option<SyntaxNode> {
+        if self.parent.is_mutable() {
+            // The caller is free to detach the node we are about to return, so
+            // find its successor now, while it is still attached.
+            let next =
+                if self.next_initialized { self.next.take() } else { self.parent.first_child() };
+            self.next_initialized = true;
+            self.next = next.as_ref().and_then(|next| next.next_sibling());
+            return next;
+        }
+
         if !self.next_initialized {
             self.next = self.parent.first_child();
             self.next_initialized = true;
@@ -1448,6 +1458,19 @@ impl SyntaxElementChildren {
 impl Iterator for SyntaxElementChildren {
     type Item = SyntaxElement;
     fn next(&mut self) -> Option<SyntaxElement> {
+        if self.parent.is_mutable() {
+            // The caller is free to detach the element we are about to return,
+            // so find its successor now, while it is still attached.
+            let next = if self.next_initialized {
+                self.next.take()
+            } else {
+                self.parent.first_child_or_token()
+            };
+            self.next_initialized = true;
+            self.next = next.as_ref().and_then(|next| next.next_sibling_or_token());
+            return next;
+        }
+
         if !self.next_initialized {
             self.next = self.parent.first_child_or_token();
             self.next_initialized = true;
-- 
2.43.0


From cedb5a84a5b3eb30b8604cf7546c6b1278e16480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 2/5] fix: don't repeat the last returned child in by_kind

In an immutable tree `next` of a started child iterator is the element
which was returned last, not the upcoming one, so `by_kind` yielded it
for the second time.
---
 src/cursor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 4ffd207..a6edd85 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -1365,12 +1365,12 @@ impl SyntaxNodeChildren {
         SyntaxNodeChildren { parent, next: None, next_initialized: false }
     }
 
-    pub fn by_kind<F: Fn(SyntaxKind) -> bool>(self, matcher: F) -> SyntaxNodeChildrenByKind<F> {
+    pub fn by_kind<F: Fn(SyntaxKind) -> bool>(mut self, matcher: F) -> SyntaxNodeChildrenByKind<F> {
         if !self.next_initialized {
             SyntaxNodeChildrenByKind { next: self.parent.first_child_by_kind(&matcher), matcher }
         } else {
             SyntaxNodeChildrenByKind {
-                next: self.next.and_then(|node| {
+                next: self.next().and_then(|node| {
                     if matcher(node.kind()) {
                         Some(node)
                     } else {
@@ -1434,7 +1434,10 @@ impl SyntaxElementChildren {
         SyntaxElementChildren { parent, next: None, next_initialized: false }
     }
 
-    pub fn by_kind<F: Fn(SyntaxKind) -> bool>(self, matcher: F) -> SyntaxElementChildrenByKind<F> {
+    pub fn by_kind<F: Fn(SyntaxKind) -> bool>(
+        mut self,
+        matcher: F,
+    ) -> SyntaxElementChildrenByKind<F> {
         if !self.next_initialized {
             SyntaxElementChildrenByKind {
                 next: self.parent.first_child_or_token_by_kind(&matcher),
@@ -1442,7 +1445,7 @@ impl SyntaxElementChildren {
             }
         } else {
             SyntaxElementChildrenByKind {
-                next: self.next.and_then(|node| {
+                next: self.next().and_then(|node| {
                     if matcher(node.kind()) {
                         Some(node)
                     } else {
-- 
2.43.0


From 1c9680b5e27ba930a04306a09643f3c89073ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 3/5] fix: don't leak a root in to_next_sibling

`take_ptr` forgets the handle, so returning early for a root, which has
no parent, leaked the node and its green tree.
---
 src/cursor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index a6edd85..374f42a 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -766,11 +766,12 @@ impl SyntaxNode {
             return self.next_sibling();
         }
 
+        let parent = self.parent()?;
+
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
         assert!(data.rc.get() == 1);
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
@@ -1206,10 +1207,11 @@ impl SyntaxElement {
             return self.next_sibling_or_token();
         }
 
+        let parent = self.parent()?;
+
         let mut ptr = self.take_ptr();
         let data = unsafe { ptr.as_mut() };
 
-        let parent = data.parent_node()?;
         let parent_offset = parent.offset();
         let siblings = parent.green_ref().children().raw.enumerate();
         let index = data.index() as usize;
-- 
2.43.0


From 162c5ed6786100906d55a56dd04ef89942827bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 4/5] fix: skip empty nodes when looking for the first, last,
 next or previous token

---
 src/cursor.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 374f42a..a06fa9a 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -825,10 +825,12 @@ impl SyntaxNode {
     }
 
     pub fn first_token(&self) -> Option<SyntaxToken> {
-        self.first_child_or_token()?.first_token()
+        iter::successors(self.first_child_or_token(), |it| it.next_sibling_or_token())
+            .find_map(|it| it.first_token())
     }
     pub fn last_token(&self) -> Option<SyntaxToken> {
-        self.last_child_or_token()?.last_token()
+        iter::successors(self.last_child_or_token(), |it| it.prev_sibling_or_token())
+            .find_map(|it| it.last_token())
     }
 
     #[inline]
@@ -1087,22 +1089,28 @@ impl SyntaxToken {
     }
 
     pub fn next_token(&self) -> Option<SyntaxToken> {
-        match self.next_sibling_or_token() {
-            Some(element) => element.first_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.next_sibling_or_token())
-                .and_then(|element| element.first_token()),
-        }
+        self.siblings_with_tokens(Direction::Next)
+            .skip(1)
+            .find_map(|element| element.first_token())
+            .or_else(|| {
+                self.ancestors().find_map(|it| {
+                    it.siblings_with_tokens(Direction::Next)
+                        .skip(1)
+                        .find_map(|element| element.first_token())
+                })
+            })
     }
     pub fn prev_token(&self) -> Option<SyntaxToken> {
-        match self.prev_sibling_or_token() {
-            Some(element) => element.last_token(),
-            None => self
-                .ancestors()
-                .find_map(|it| it.prev_sibling_or_token())
-                .and_then(|element| element.last_token()),
-        }
+        self.siblings_with_tokens(Direction::Prev)
+            .skip(1)
+            .find_map(|element| element.last_token())
+            .or_else(|| {
+                self.ancestors().find_map(|it| {
+                    it.siblings_with_tokens(Direction::Prev)
+                        .skip(1)
+                        .find_map(|element| element.last_token())
+                })
+            })
     }
 
     pub fn detach(&self) {
-- 
2.43.0


From 2b87657139bccb656172da54b18a75ef7ed4fc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 5/5] fix: don't leave a dangling green pointer when splicing
 in out of bounds

---
 src/cursor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cursor.rs b/src/cursor.rs
index a06fa9a..a037625 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -491,6 +491,10 @@ impl NodeData {
     fn attach_child(&self, index: usize, child: &NodeData) {
         assert!(self.mutable && child.mutable && child.parent().is_none());
         assert!(self.rc.get() > 0 && child.rc.get() > 0);
+        // Check this before touching anything: panicking halfway through would
+        // leave `child` with a dangling green pointer.
+        let n_children = self.green().into_node().unwrap().children().len();
+        assert!(index <= n_children, "index {} out of bounds: {} children", index, n_children);
 
         child.index.set(index as u32);
         child.parent.set(Some(self.into()));
-- 
2.43.0

