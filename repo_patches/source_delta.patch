From 1c1359c118728d7c14a5ecf6c91f93eb009795c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 01/25] fix: build a list from another list without sharing its
 nodes

---
 extra/lists/doubly_linked_list.py | 5 -----
 extra/lists/linked_list.py        | 4 ----
 2 files changed, 9 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index b17d171..3a12ec3 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -207,11 +207,6 @@ class DoublyLinkedList(LinkedList):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a DoublyLinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
-            self._tail = iterable._tail
         else:
             self._head = None
             self._tail = None
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 8a10560..77440a9 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -222,10 +222,6 @@ class LinkedList(Extra):
             self._length = 0
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            # in case the given iterable is alread a LinkedList()
-            self._head = iterable._head
-            self._length = iterable._length
         else:
             self._head = None
             self._length = 0
-- 
2.43.0


From 86e34b79bdcf7704535b76a992b59da5dde7e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 02/25] fix: extend a list with copies of the other list's
 items, not its nodes

---
 extra/lists/circular_linked_list.py |  2 +-
 extra/lists/doubly_linked_list.py   | 13 +++----------
 extra/lists/linked_list.py          | 12 +++---------
 3 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 58dbc76..729d297 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -874,7 +874,7 @@ class CircularLinkedList(LinkedList):
                 curr_node = curr_node.get_next()
             prev_node = curr_node
             # now, let's add the new values
-            for item in other:
+            for item in other.to_list():
                 new_node = self._basic_node(item)
                 self._insert_node(prev_node, new_node)
                 prev_node = new_node
diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 3a12ec3..32e6074 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -984,16 +984,9 @@ class DoublyLinkedList(LinkedList):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._tail = other._tail
-            self._length += other._length
-        else:
-            self._tail.set_next(other._head)
-            self._tail = other._tail
-            self._length += other._length
+        last_node, _ = self._get_node(self._length)
+        for item in other.to_list():
+            last_node = self._insert_value(last_node, item)
 
     # =============================      SET     ==============================
     def __setitem__(self, idx, item):
diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 77440a9..e80b2f2 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1399,15 +1399,9 @@ class LinkedList(Extra):
                 "Type Mismatch! "
                 + f"Can't extend `{self.__name__}` with `{type(other)}`!!"
             )
-        if other.is_empty():
-            pass  # do nothing
-        elif self.is_empty():
-            self._head = other._head
-            self._length = other._length
-        else:
-            last_node, _ = self._get_node(self._length)
-            last_node.set_next(other._head)
-            self._length += other._length
+        last_node, _ = self._get_node(self._length)
+        for item in other.to_list():
+            last_node = self._insert_value(last_node, item)
 
     # =============================     SET      ==============================
     def _replace_value(self, idx, new_value):
-- 
2.43.0


From dcf7207739e35f59eef4ddee2d7337ba3b1079bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 03/25] fix: list > other compares against the other list's
 length

---
 extra/lists/linked_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index e80b2f2..f11d4a1 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -814,7 +814,7 @@ class LinkedList(Extra):
         if all_equal:
             return True if self._length > other._length else False
         else:
-            return True if idx == self._length else False
+            return True if idx == other._length else False
 
     def __ge__(self, other):
         """
-- 
2.43.0


From fce848ca8a7630f5136570cd01bdb4c15c99b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 04/25] fix: an emptied doubly linked list keeps no reference
 to its last node

---
 extra/lists/doubly_linked_list.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 32e6074..230af93 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1078,8 +1078,7 @@ class DoublyLinkedList(LinkedList):
         next_node = node_to_be_removed.get_next()
         # if node to be removed is the first
         if self._length == 1:
-            # NOTE: don't use set_data() here
-            self._head.data = self._tail.data = None
+            self._head = self._tail = None
             self._length -= 1
         elif self._length == 2:
             if prev_node is None:
-- 
2.43.0


From 88e903be009abc027b7c1a969a7236076883635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 05/25] fix: removing the first of three or more nodes unlinks
 it (priorities move with their items)

---
 extra/lists/doubly_linked_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/lists/doubly_linked_list.py b/extra/lists/doubly_linked_list.py
index 230af93..db5380e 100644
--- a/extra/lists/doubly_linked_list.py
+++ b/extra/lists/doubly_linked_list.py
@@ -1093,6 +1093,10 @@ class DoublyLinkedList(LinkedList):
                 prev_node.set_next(next_node)
                 self._tail = prev_node
                 self._length -= 1
+            elif prev_node is None:
+                next_node.set_prev(None)
+                self._head = next_node
+                self._length -= 1
             else:
                 super()._remove_node(prev_node, node_to_be_removed)
 
-- 
2.43.0


From dab3b0c0de0338e47e18983dae3fdaf460c690e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 06/25] fix: keep both priority extremes up to date after
 evictions and dequeues

---
 extra/lists/priority_queue.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extra/lists/priority_queue.py b/extra/lists/priority_queue.py
index 62d1b94..455e640 100644
--- a/extra/lists/priority_queue.py
+++ b/extra/lists/priority_queue.py
@@ -371,7 +371,11 @@ class PriorityQueue(Queue):
         node = PriorityNode(item, priority)
         self._min_priority = min(self._min_priority, node.get_priority())
         self._max_priority = max(self._max_priority, node.get_priority())
+        evicting = self.is_full()
         super()._enqueue(node)
+        if evicting:
+            self._update_min_priority()
+            self._update_max_priority()
 
     # =============================      TOP     ==============================
     def top(self):
@@ -484,12 +488,14 @@ class PriorityQueue(Queue):
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
                         self._update_min_priority()
+                        self._update_max_priority()
                         break
                 else:
                     if curr_node.get_priority() == self._max_priority:
                         node_data = curr_node.get_data()
                         self._container._remove_node(curr_node.get_prev(),
                                                      curr_node)
+                        self._update_min_priority()
                         self._update_max_priority()
                         break
                 curr_node = curr_node.get_next()
-- 
2.43.0


From 916467a6dac6314165a0da9079372e2e441f219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 07/25] fix: assigning into a circular list validates the item
 and the emptiness

---
 extra/lists/circular_linked_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/lists/circular_linked_list.py b/extra/lists/circular_linked_list.py
index 729d297..21096b2 100644
--- a/extra/lists/circular_linked_list.py
+++ b/extra/lists/circular_linked_list.py
@@ -932,6 +932,9 @@ class CircularLinkedList(LinkedList):
            └──────────────────┘
         """
         self._validate_index(idx)
+        if self.is_empty():
+            raise IndexError(f"{self.__name__} is empty!!")
+        super()._validate_item(item)
         idx = idx % self._length if self._length != 0 else 0
         super()._replace_value(idx, item)
 
-- 
2.43.0


From 53dbe311616960142a138d29b5f9c39faececb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 08/25] fix: rotate_right rejects a non-boolean inplace flag
 like rotate_left

---
 extra/lists/linked_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index f11d4a1..2a36aea 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -2100,6 +2100,8 @@ class LinkedList(Extra):
         │ 2 │⟶│ 3 │⟶│ 4 │⟶│ 1 │⟶
         └───┘ └───┘ └───┘ └───┘
         """
+        if type(inplace) != bool:
+            raise TypeError("`inplace` is a boolean flag (True by default)!!")
         self._validate_rotation_distance(distance)
         rotated = self._rotate(distance, "RIGHT")
         if not inplace:
-- 
2.43.0


From 1a62f3225ce4081419aa70e62a9cc2b0d0dbf7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 09/25] fix: slices with a negative step return the items in
 slice order

---
 extra/lists/linked_list.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/extra/lists/linked_list.py b/extra/lists/linked_list.py
index 2a36aea..24b4545 100644
--- a/extra/lists/linked_list.py
+++ b/extra/lists/linked_list.py
@@ -1108,7 +1108,8 @@ class LinkedList(Extra):
         self._validate_index(idx, accept_negative=True, accept_slice=True)
         if isinstance(idx, slice):
             indices = range(*idx.indices(self._length))
-            max_idx = indices[-1] if indices else -1
+            max_idx = max(indices) if indices else -1
+            is_reversed = len(indices) > 1 and indices[0] > indices[-1]
             indices = set(indices)
             # start getting wanted nodes
             counter = 0
@@ -1117,8 +1118,10 @@ class LinkedList(Extra):
             out_llist = self._create_instance()
             while counter <= max_idx:
                 if counter in indices:
-                    prev_node = out_llist._insert_value(prev_node,
-                                                        curr_node.get_data())
+                    prev_node = out_llist._insert_value(
+                        None if is_reversed else prev_node,
+                        curr_node.get_data()
+                    )
                 curr_node = curr_node.get_next()
                 counter += 1
             return out_llist
-- 
2.43.0


From d1cd0a22d2fce659563334ca67bbee3e2c6d69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 10/25] fix: build a skip list from another one without sharing
 its levels

---
 extra/lists/skip_list.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 4c7fc26..889f7b7 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -295,9 +295,6 @@ class SkipList(Extra):
             self._num_levels = 1
         elif not hasattr(iterable, "__iter__"):
             raise TypeError("The given object isn't iterable!!")
-        elif isinstance(iterable, self.__class__):
-            self._level_lists = iterable._level_lists
-            self._num_levels = iterable._num_levels
         else:
             ll = LinkedList()
             ll._insert_node(ll._head, self._basic_node(float("-inf")))
-- 
2.43.0


From a73f7a0352bc6c9338940d91b4024a7367ec7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 11/25] fix: the sentinel of a skip list is neither a member
 nor removable

---
 extra/lists/skip_list.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extra/lists/skip_list.py b/extra/lists/skip_list.py
index 889f7b7..60486df 100644
--- a/extra/lists/skip_list.py
+++ b/extra/lists/skip_list.py
@@ -581,6 +581,8 @@ class SkipList(Extra):
         super()._validate_item(item)
         if type(item) not in {int, float}:
             raise TypeError(f"`{self.__name__}` supports only numbers!!")
+        elif item == float("-inf"):
+            raise ValueError(f"`{self.__name__}` reserves negative infinity!!")
 
     def _validate_index(self, idx, accept_negative=False, accept_slice=False):
         """
@@ -740,7 +742,7 @@ class SkipList(Extra):
         >>> "hello" in sl
         False
         """
-        if type(value) not in {int, float}:
+        if type(value) not in {int, float} or value == float("-inf"):
             return False
         self._validate_item(value)
         _, found_node, _ = self._search(value)
@@ -976,7 +978,7 @@ class SkipList(Extra):
         In the previuos example, the top level was deleted when we removed `4`
         since it was empty after removal.
         """
-        if type(value) not in {int, float}:
+        if type(value) not in {int, float} or value == float("-inf"):
             return
         # search for that value
         prev_node, found_node, last_accessed_nodes = self._search(value)
-- 
2.43.0


From c6221cadb27146b6f47375fe8474a2ca71052586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 12/25] fix: removing from a search tree keeps the subtree
 below the replacement

---
 extra/trees/bst.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/trees/bst.py b/extra/trees/bst.py
index fe6c3e8..7d3639a 100644
--- a/extra/trees/bst.py
+++ b/extra/trees/bst.py
@@ -899,7 +899,12 @@ class BST(BinaryTree):
                 new_replacement = replacement.get_right()
             # swap data
             self._basic_node.swap(node, replacement)
-            self._transplant(replacement, new_replacement)
+            # unlink the replacement, its only child takes its place
+            parent = replacement.get_parent()
+            if parent.get_left() == replacement:
+                parent.set_left(new_replacement)
+            else:
+                parent.set_right(new_replacement)
 
     def _remove(self, del_value, start_node):
         """
-- 
2.43.0


From d639f8a3c943a23deec592266ef378079405b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 13/25] fix: rebalance with a single rotation when both
 grandchildren are equally high

---
 extra/trees/avl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/trees/avl.py b/extra/trees/avl.py
index cb09a88..0198bde 100644
--- a/extra/trees/avl.py
+++ b/extra/trees/avl.py
@@ -750,7 +750,9 @@ class AVL(BST):
         left_height, right_height = parent.get_children_heights()
         node = (
             parent.get_left()
-            if left_height > right_height else parent.get_right()
+            if left_height > right_height or (
+                left_height == right_height and parent.is_left_child()
+            ) else parent.get_right()
         )
 
         # determine the direction
-- 
2.43.0


From 0bae225f10ad2615e582e689c2ab9095547de743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 14/25] fix: recolor a red-black tree only below a red node

---
 extra/trees/red_black_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index dab6e8f..38d2567 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -513,7 +513,8 @@ class RedBlackTree(BST):
             return parent if parent else start_node
 
         # case I
-        if parent.get_color() == Color.BLACK:
+        if (parent.get_color() == Color.BLACK
+                or start_node.get_color() == Color.BLACK):
             # do nothing
             # print("Case I")
             return self._root
-- 
2.43.0


From 71f920c598152ad2ece0abac025fb40538aed76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 15/25] fix: removing from a red-black tree keeps its colour
 rules

---
 extra/trees/red_black_tree.py | 67 ++++++++++-------------------------
 1 file changed, 19 insertions(+), 48 deletions(-)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index 38d2567..e366d84 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -728,6 +728,7 @@ class RedBlackTree(BST):
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_right_color == Color.BLACK:
@@ -770,10 +771,11 @@ class RedBlackTree(BST):
                     s_right_child.get_color() if s_right_child else Color.BLACK
                 )
                 # Case III
-                if (s_right_color == Color.BLACK
+                if (s_left_color == Color.BLACK
                         and s_right_color == Color.BLACK):
                     sibling.set_color(Color.RED)
                     double_black_node = parent
+                    parent = double_black_node.get_parent()
                 # Case II
                 else:
                     if s_left_color == Color.BLACK:
@@ -791,6 +793,9 @@ class RedBlackTree(BST):
                     parent = super()._rotate_right(parent)
                     super()._attach(grandparent, parent)
                     double_black_node = self._root
+        # the red node which absorbs the extra black
+        if double_black_node:
+            double_black_node.set_color(Color.BLACK)
         # make sure root is always black
         self._root.set_color(Color.BLACK)
 
@@ -869,54 +874,20 @@ class RedBlackTree(BST):
         replacement = self._find_replacement(removed_node)
         # print("replacement:", replacement)
 
-        # Case I (replace red-node with red-node/None)
-        if removed_node.get_color() == Color.RED and (
-            replacement is None or replacement.get_color() == Color.RED
-        ):
-            # print("Case I (replace red-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
-
-        # Case II (replace red-node with black-node)
-        elif (
-            removed_node.get_color() == Color.RED
-            and replacement.get_color() == Color.BLACK
-        ):
-            # print("Case II (replace red-node with black-node)")
-            raise ValueError("Debug this, this case shouldn't occur!!")
-
-        # Case III (replace black-node with black-node)
-        elif removed_node.get_color() == Color.BLACK and (
-            replacement is None or replacement.get_color() == Color.BLACK
-        ):
-            # print("Case III (double black-node)")
-            if replacement:
-                parent = replacement.get_parent()
-            else:
-                parent = removed_node.get_parent()
-            # do the transplant
-            super()._transplant(removed_node, replacement)
-            # get double black node
-            if replacement is None:
-                if parent.get_left() is None:
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
+        # the node that gets unlinked, and the child that takes its place
+        color = removed_node.get_color()
+        unlinked_node = replacement if replacement else removed_node
+        unlinked_color = unlinked_node.get_color()
+        parent = unlinked_node.get_parent()
+        child = unlinked_node.get_left() or unlinked_node.get_right()
+        # do the transplant, values move but colors stay
+        super()._transplant(removed_node, replacement)
+        removed_node.set_color(color)
+        if unlinked_color == Color.BLACK:
+            if child:
+                child.set_color(Color.BLACK)
             else:
-                if replacement.get_data() < parent.get_data():
-                    double_black_node = parent.get_left()
-                else:
-                    double_black_node = parent.get_right()
-            # handle this double black
-            self.__handle_double_black(parent, double_black_node)
-
-        # Case IV (replace black-node with red-node/None)
-        elif (
-            removed_node.get_color() == Color.BLACK
-            and replacement.get_color() == Color.RED
-        ):
-            replacement.set_color(Color.BLACK)
-            # print("Case IV (replace black-node with red-node/None)")
-            super()._transplant(removed_node, replacement)
+                self.__handle_double_black(parent, child)
         # decrease the length
         self._length -= 1
 
-- 
2.43.0


From ce67bc32265aa7adfea18ae11edbd15e2b308aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 16/25] fix: the black height of an empty red-black tree is
 zero

---
 extra/trees/red_black_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/red_black_tree.py b/extra/trees/red_black_tree.py
index e366d84..e05cf17 100644
--- a/extra/trees/red_black_tree.py
+++ b/extra/trees/red_black_tree.py
@@ -942,6 +942,8 @@ class RedBlackTree(BST):
         >>> rbtree.get_black_height()
         2
         """
+        if self.is_empty():
+            return 0
         black_height = 0
         start_node = self._root.get_left()
         while start_node is not None:
-- 
2.43.0


From 5799f42bbfedf767d3265bc23847fba5345def20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 17/25] fix: a heap removal moves the replacing value up when
 it belongs there

---
 extra/trees/_heap.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index f1b122d..e46ddfd 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -350,6 +350,19 @@ class Heap(ABC, Extra):
         self._heap[last_idx] = float("-inf") if is_min_heap else float("inf")
         # start swapping when needed
         self.__rebalance(del_idx, is_min_heap)
+        # the moved value could belong above the removed one
+        while del_idx != last_idx and del_idx != 0:
+            parent_idx = (del_idx - 1) // 2
+            current = self._heap[del_idx]
+            parent = self._heap[parent_idx]
+            if (is_min_heap and parent > current) or (
+                not is_min_heap and parent < current
+            ):
+                self._heap[parent_idx] = current
+                self._heap[del_idx] = parent
+                del_idx = parent_idx
+            else:
+                break
         # remove the (+/-)inf
         self._heap.pop()
 
-- 
2.43.0


From e03fcd2cd456b1691857928935c08b2ddbe46a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 18/25] fix: iterating over an empty heap yields nothing

---
 extra/trees/_heap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index e46ddfd..56c6831 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -377,6 +377,8 @@ class Heap(ABC, Extra):
         generator:
             The value of each node in the instance.
         """
+        if self.is_empty():
+            return
         btree = self._transform()
         for node in btree:
             yield node
-- 
2.43.0


From c00b21a2cf2e495bfdc6fc6688e22b66364fcbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 19/25] fix: a heap hands out a copy of its values

---
 extra/trees/_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/_heap.py b/extra/trees/_heap.py
index 56c6831..8c72203 100644
--- a/extra/trees/_heap.py
+++ b/extra/trees/_heap.py
@@ -393,7 +393,7 @@ class Heap(ABC, Extra):
         list:
             A `list` object containing the same elements as the heap instance.
         """
-        return self._heap
+        return self._heap[:]
 
     # =============================    CLEAR     ==============================
     def clear(self):
-- 
2.43.0


From 361bbd9240c8c89ac30e4676ebde4d9b5c8399e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 20/25] fix: nothing is a member of an empty tree

---
 extra/trees/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/tree.py b/extra/trees/tree.py
index 89cea00..fdbb256 100644
--- a/extra/trees/tree.py
+++ b/extra/trees/tree.py
@@ -1013,7 +1013,7 @@ class Tree(Extra):
         >>> t._search(50)
         None
         """
-        queue = [self._root]
+        queue = [] if self.is_empty() else [self._root]
         while queue:
             curr_node = queue.pop()
             if curr_node.get_data() == value:
-- 
2.43.0


From 894e09e9d308d94858fa6ca1a91bb7a727124d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 21/25] fix: nothing is a member of an empty splay tree

---
 extra/trees/splay_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extra/trees/splay_tree.py b/extra/trees/splay_tree.py
index 87ef649..ea2858c 100644
--- a/extra/trees/splay_tree.py
+++ b/extra/trees/splay_tree.py
@@ -391,6 +391,8 @@ class SplayTree(BST):
         root.
         """
         super()._validate_item(find_val)
+        if self.is_empty():
+            return False
         node = super()._search(find_val, self._root)
         self._splay(node)
         return node.get_data() == find_val
-- 
2.43.0


From 9684914faa38438f1fe7058f5ab9f73ab5a8dccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 22/25] fix: a closing brace in a word is an ordinary character

---
 extra/trees/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 66400c5..8f2922d 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -532,7 +532,7 @@ class Trie(Tree):
             child = curr_node.get_child(ch)
             child_data = child.get_data() if child else "}"
             # '}' is used to break the following if-condition
-            if child_data == word[: len(child_data)]:
+            if child and child_data == word[: len(child_data)]:
                 word = word[len(child_data):]
                 curr_node = child
             else:
-- 
2.43.0


From e4a4f55715d8f3a41f38cc8afdb381cfb48041e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 23/25] fix: removing the last word stops at the root of the
 trie

---
 extra/trees/trie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/trees/trie.py b/extra/trees/trie.py
index 8f2922d..a3cde06 100644
--- a/extra/trees/trie.py
+++ b/extra/trees/trie.py
@@ -719,7 +719,8 @@ class Trie(Tree):
         if remaining_word == "":  # found the whole word
             curr_node = last_node
             curr_node._is_word = False
-            while not curr_node._is_word and curr_node.is_leaf():
+            while (curr_node is not self._root
+                    and not curr_node._is_word and curr_node.is_leaf()):
                 ch = curr_node.get_data()[0]
                 parent = curr_node.get_parent()
                 del parent._children[ch]
-- 
2.43.0


From 1d8ad2bc496baaa07d046453a429df5371cfdbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 24/25] fix: removing from a treap works for negative
 priorities

---
 extra/trees/treap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/trees/treap.py b/extra/trees/treap.py
index 6c1fff2..8ce1465 100644
--- a/extra/trees/treap.py
+++ b/extra/trees/treap.py
@@ -566,7 +566,9 @@ class Treap(BST):
                     else -1
                 )
                 # perform rotation
-                if left_priority > right_priority:
+                if right_child is None or (
+                    left_child and left_priority > right_priority
+                ):
                     removed_node = super()._rotate_right(removed_node)
                     super()._attach(parent, removed_node)
                     parent = removed_node
-- 
2.43.0


From 97d9008562e293b2c6cfa6af7b725dd63417cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:27 +0000
Subject: [PATCH 25/25] fix: the longest repeated substring can end at any
 level of the suffix trie

---
 extra/trees/suffix_trie.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/extra/trees/suffix_trie.py b/extra/trees/suffix_trie.py
index cb0f21d..230e4fd 100644
--- a/extra/trees/suffix_trie.py
+++ b/extra/trees/suffix_trie.py
@@ -440,9 +440,7 @@ class SuffixTrie(Extra):
         level_nodes = (
             self._rt._get_nodes_per_level(self._rt._root, 0, [], False)
         )
-        if len(level_nodes) > 2:
-            return level_nodes[-1] + level_nodes[-2]
-        return level_nodes[-1]
+        return [node for nodes in level_nodes for node in nodes]
 
     def _get_ancestors_data(self, node):
         """
-- 
2.43.0

