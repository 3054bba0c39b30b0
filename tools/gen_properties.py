"""Writes properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
L = 'extra/lists/'
T = 'extra/trees/'
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
HI = ['histories', 'inputs']

prop('C01', 'A linked list is the sequence its edits describe',
 "After any sequence of constructions from an iterable, front/end/indexed insertions, item assignments, deletions by index, removals from either end, removals by value (first or all occurrences) and clears, a singly linked list holds exactly the items, in order, that the same edits produce on an ordinary sequence. Its length, emptiness, iteration, indexing (negative indices included) and membership all agree with that sequence, and every item not touched by an edit keeps its value and relative position. The only change to an item is that newline characters inside a string are stored as a backslash followed by n.",
 HI, 'every list of every length and content, every position, every value and every edit history',
 'tests run a handful of short scripted edit sequences and random lists of fixed size; the claim is over all lengths, positions (first, last, only element) and histories',
 [L+'linked_list.py'], [('insertion at a position','LinkedList._insert/_insert_node/_get_node'),('removal relinking','LinkedList._remove_node/_remove_value'),('length counter','LinkedList._length')],
 [('node chain','the items in order','LinkedList._head'),('length','number of items','LinkedList._length')], ['len','iteration','indexing','in'])

prop('C02', 'A doubly linked list is one sequence readable from both ends',
 "After any sequence of edits, a doubly linked list holds exactly the items, in order, that the same edits produce on an ordinary sequence, and its length, emptiness, iteration, indexing and membership agree with that sequence. Walking the links backwards from the last element visits the same elements in exactly the reverse order, so the first and last element and every neighbour link are consistent whatever was inserted or removed before.",
 HI, 'every doubly linked list, every edit operation and position, every history',
 'tests check a few scripted sequences; the special cases for lengths 0, 1, 2 and the both-direction link consistency over all histories are not enumerated',
 [L+'doubly_linked_list.py',L+'linked_list.py'], [('length-specific insertion','DoublyLinkedList._insert_node'),('length-specific removal','DoublyLinkedList._remove_node'),('search from the nearer end','DoublyLinkedList._get_node')],
 [('tail','the last element','DoublyLinkedList._tail')], ['len','iteration','backward links'])

prop('C03', 'A circular list is a closed ring with positions modulo its length',
 "After any sequence of edits, a circular linked list holds exactly the items, in order, that the same edits produce on an ordinary sequence, where reading, assigning, deleting and splitting take the index modulo the length and inserting takes it modulo the length plus one. Following next links from the first element visits exactly length-many elements and arrives back at the first one, so the ring never breaks or shrinks to part of the list.",
 HI, 'every circular list, every non-negative index, every edit history',
 'tests touch a few indices beyond the length; ring closure and modular positions are claims over all lengths, indices and histories',
 [L+'circular_linked_list.py',L+'linked_list.py'], [('ring insertion','CircularLinkedList._insert_node'),('ring removal','CircularLinkedList._remove_node'),('index reduction','CircularLinkedList.__getitem__/insert/__setitem__/__delitem__/split')],
 [('ring','first element and next links','CircularLinkedList._head')], ['len','iteration','next links'])

prop('C04', 'Slicing, splitting, rotating, reversing and copying give the exact result',
 "For every list of the three linked kinds, copying, reversing, slicing (singly and doubly linked), splitting at an index, rotating left or right by any non-negative distance, converting to a plain list and counting a value produce exactly what those operations give on the sequence of its items. Except for in-place rotation, the source list is left unchanged and later edits of the result or of the source do not affect the other; in-place rotation replaces the content by exactly the rotated sequence.",
 HI, 'every list, slice bounds, split index, rotation distance and value',
 'tests compare a few slices, splits and distances; the claim quantifies over every bound, distance and length, including empty lists and distances beyond the length',
 [L+'linked_list.py',L+'doubly_linked_list.py',L+'circular_linked_list.py'], [('slicing','LinkedList.__getitem__'),('split and rotate','LinkedList._split/_rotate'),('reverse, copy, count','LinkedList.reverse/copy/count')], (), ['returned list','source list'])

prop('C05', 'List comparison is one consistent elementwise relation',
 "Two lists of the same kind are equal exactly when they have the same length and pairwise equal items, and unequal otherwise. A list is less than or equal to another exactly when it is not longer and no item of it is greater than the item at the same position of the other (items at common positions), and strictly less exactly when in addition the two are not equal; greater and greater-or-equal are the mirror images, so a<b always gives the same answer as b>a and a<=b the same as b>=a. Comparing never changes either list.",
 ['inputs'], 'every pair of lists of every length and content over mutually comparable items',
 'tests compare a few literal lists; mirror-symmetry between operators and the unequal-length cases range over all pairs',
 [L+'linked_list.py',L+'doubly_linked_list.py',L+'circular_linked_list.py'], [('common-prefix walk','LinkedList._compare'),('operators','LinkedList.__eq__/__ne__/__lt__/__le__/__gt__/__ge__')], (), ['==','!=','<','<=','>','>='])

prop('C06', 'Extending or building from another list copies its items, not its links',
 "Extending a list with another list of the same kind (itself included) appends exactly the other list's items in order, and building a list from another list of the same kind yields the same items. The other list is left unchanged, and afterwards no edit of one of the two lists is ever visible in the other.",
 HI, 'every pair of same-kind lists (including the same list twice) and every later edit history of either',
 'tests only look at the extended list right after the call; independence is a claim about all later histories of both lists',
 [L+'linked_list.py',L+'doubly_linked_list.py',L+'circular_linked_list.py'], [('extension','LinkedList.extend, DoublyLinkedList.extend, CircularLinkedList.extend'),('copy construction','LinkedList.__init__, DoublyLinkedList.__init__')], (), ['both lists after the call'])

prop('C07', 'A stack is last-in first-out and never exceeds its capacity',
 "Over any history of pushes, pops, peeks and clears, a stack returns items in last-in first-out order, peeking returns the item the next pop would return without removing it, and length, emptiness and fullness agree with the pushes minus the pops. The number of items never exceeds the (rounded) capacity: a push onto a full stack raises an overflow error and changes nothing, popping an empty stack warns and returns nothing, and clearing keeps the capacity.",
 HI, 'every capacity and every push/pop/peek/clear history',
 'tests push and pop a few items with one or two capacities; the claim is over all capacities and histories',
 [L+'stack.py'], [('push with capacity check','Stack.push'),('pop and peek','Stack.pop/Stack.peek')], [('container','the items, top last','Stack._container')], ['pop','peek','len'])

prop('C08', 'A queue is first-in first-out; a full queue drops its oldest item',
 "Over any history of enqueues, dequeues, tops and clears, a queue returns items in first-in first-out order and top returns the item the next dequeue would return without removing it. Its length never exceeds the (rounded) capacity: enqueuing into a full queue of positive capacity warns, drops exactly the oldest item and adds the new one, with capacity zero it stays empty; dequeuing an empty queue warns and returns nothing, and clearing keeps the capacity.",
 HI, 'every capacity and every enqueue/dequeue/top/clear history',
 'tests enqueue a few items with one or two capacities; the claim is over all capacities and histories',
 [L+'queue.py',L+'doubly_linked_list.py'], [('enqueue with eviction','Queue._enqueue'),('dequeue','Queue.dequeue')], [('container','items, newest first','Queue._container')], ['dequeue','top','len'])

prop('C09', 'A deque adds and removes at both ends and respects its capacity',
 "Over any history of appends and pops on either side, a deque holds exactly the sequence those operations describe: the left/right accessors return the current end items, the left/right pops remove and return them, and no other item changes. Its length never exceeds the (rounded) capacity: appending on one side of a full deque of positive capacity warns and drops exactly the item at the opposite end, with capacity zero it stays empty, and popping an empty deque warns and returns nothing.",
 HI, 'every capacity and every history of operations at both ends',
 'tests script a few one-sided sequences; mixed histories over all capacities are not covered',
 [L+'deque.py',L+'queue.py',L+'doubly_linked_list.py'], [('append with eviction','Deque.append_left/append_right'),('pops','Deque.pop_left/pop_right')], (), ['get_left','get_right','pop_left','pop_right'])

prop('C10', 'A priority queue hands out an item of extreme priority, always',
 "Over any history of enqueues and dequeues, dequeuing a non-empty priority queue removes and returns an item whose priority is the highest (or, on request, the lowest) among the items currently held, and every other item keeps its own value and priority. Enqueuing adds exactly one item with the given number as priority; when the queue is full it first drops exactly the oldest held item, its length never exceeds the (rounded) capacity, and dequeuing an empty one warns and returns nothing.",
 HI, 'every history of enqueues and highest/lowest dequeues, all priorities and capacities',
 'tests dequeue everything one way from one insertion order; mixing highest, lowest, evictions and refills over all histories is not covered',
 [L+'priority_queue.py',L+'queue.py',L+'doubly_linked_list.py'], [('tracked extreme priorities','PriorityQueue.enqueue/_update_min_priority/_update_max_priority'),('scan and unlink','PriorityQueue.dequeue')], [('extremes','lowest/highest priority held','PriorityQueue._min_priority/_max_priority')], ['dequeue','top','len'])

prop('C11', 'A skip list is a sorted duplicate-free set for every coin-flip outcome',
 "Whatever the random level choices were, after any history of insertions and removals of numbers a skip list holds exactly the set of numbers inserted and not removed since, and length, iteration, conversion to a list, indexing and membership report that set in strictly increasing order. Inserting a number already present and removing one that is absent change nothing.",
 HI+['configurations'], 'every history of insertions, removals by value and by index, and every sequence of coin flips',
 'the tests run seeded or lucky coin flips; the claim must hold for every outcome of the random level choice',
 [L+'skip_list.py',L+'linked_list.py'], [('layered search','SkipList._search, search_sorted'),('insertion and promotion','SkipList.insert/_promote'),('removal from each level','SkipList.remove')], [('levels','sorted sublists linked downwards','SkipList._level_lists')], ['in','iteration','len'])

prop('C12', 'Size, height, leaves, levels and membership of a tree match its nodes',
 "For every tree, the reported size is its number of nodes, the height is the number of edges on its longest downward path, the leaf count is the number of nodes without children, and the nodes-per-level listing and the breadth-first iteration contain every node's value exactly once, level by level and left to right. A value is a member exactly when some node carries it, an empty tree reports zero for all counts, and none of these queries changes the tree. In a trie the root carries no value: it counts as a node (an empty trie is a lone root, with no leaves) but is left out of the listings, and membership is that of whole words.",
 ['inputs'], 'every finite tree of every shape, branching and content',
 'tests look at a few fixed shapes; the claim is over all shapes and sizes',
 [T+'tree.py',T+'binary_tree.py',T+'trie.py'], [('recursive counting','Tree.__count_nodes/_get_height/_count_leaf_nodes'),('level walk','Tree.__iter__/_get_nodes_per_level'),('search','Tree._search')], (), ['len','get_height','count_leaf_nodes','get_nodes_per_level','in'])

prop('C13', 'Binary-tree traversals, views, shape tests and inversion are exact',
 "For every binary tree, the pre-, in- and post-order traversals return every node's value exactly once in the defining order, and the left and right side views list, for each level from the top, the leftmost and rightmost node of that level. A tree is perfect exactly when every level is full, strict exactly when no node has exactly one child, and inverting a tree mirrors it at every node (so inverting twice restores it).",
 ['inputs'], 'every finite binary tree',
 'tests check one or two fixed trees; the claim is over all shapes',
 [T+'binary_tree.py'], [('recursive traversals','BinaryTree.__preorder_traverse/__inorder_traverse/__postorder_traverse'),('views','BinaryTree.get_leftside_view/get_rightside_view'),('shape tests','BinaryTree.is_perfect/is_strict'),('mirror','BinaryTree.invert')], (), ['returned lists'])

prop('C14', 'A binary search tree holds exactly its set, in search order',
 "After any history of insertions and removals of numbers, a binary search tree holds exactly the numbers inserted and not removed since, each once; membership, length, minimum and maximum agree with that set and the in-order traversal is its strictly increasing listing. At every node all smaller values lie to the left and all larger ones to the right; inserting a present number and removing an absent one warn and leave the tree unchanged.",
 HI, 'every history of insertions and removals of every number, every resulting shape',
 'tests remove a few nodes from one or two shapes; removal behaviour depends on the shape below and above the removed node, over all shapes',
 [T+'bst.py'], [('search and insertion','BST._search/_insert_node'),('removal','BST._remove/_find_replacement/_transplant')], [('ordered nodes','search order','BST._root'),('count','number of nodes','BST._length')], ['in','len','inorder_traverse','get_min','get_max'])

prop('C15', 'An AVL tree is a search tree whose sides differ in height by at most one',
 "After any history of insertions and removals of numbers, an AVL tree holds exactly the numbers inserted and not removed since in search order, with length, membership, minimum and maximum agreeing with that set. At every node the heights of the two sides differ by at most one, and the reported height is the true height of the tree.",
 HI, 'every history of insertions and removals, every shape reached',
 'tests use a few scripted insertions/removals; the rebalancing cases (including equal-height siblings after a removal) depend on shapes tests never reach',
 [T+'avl.py',T+'bst.py'], [('rotation choice','AVL._rebalance'),('rebalancing walk','AVL._insert/AVL._remove'),('cached heights','AVLNode.set_left/set_right/set_height')], [('cached height','height of the subtree','AVLNode._height')], ['in','inorder_traverse','node heights'])

prop('C16', 'A red-black tree keeps its colour rules and its set under all updates',
 "After any history of insertions and removals of numbers, a red-black tree holds exactly the numbers inserted and not removed since in search order, with length, membership, minimum and maximum agreeing with that set, and no update fails. The root is black, no red node has a red child, and every path from a node down to a missing child passes the same number of black nodes; the reported black height is that number for the root.",
 HI, 'every history of insertions and removals, every colouring reached',
 'tests remove from a few scripted trees; the case analysis of insertion and removal fix-ups is over all shapes and colourings',
 [T+'red_black_tree.py',T+'bst.py'], [('insertion fix-up','RedBlackTree.__recolor/__recolor_case3'),('removal fix-up','RedBlackTree.__handle_double_black'),('removal','RedBlackTree.remove')], [('colour','red/black per node','RedBlackNode._color')], ['in','inorder_traverse','node colours','get_black_height'])

prop('C17', 'A splay tree is a search tree with the last accessed value at the root',
 "After any history of insertions, removals and membership tests of numbers, a splay tree holds exactly the numbers inserted and not removed since in search order, with length, minimum, maximum and membership agreeing with that set. After inserting a number or successfully testing for one, that number is at the root; a membership test never changes the set held.",
 HI, 'every history of insertions, removals and membership tests, every shape reached',
 'tests splay a few scripted shapes; all zig/zag combinations at all depths are a claim over all shapes',
 [T+'splay_tree.py',T+'bst.py'], [('splaying','SplayTree.__splaying and its six rotations'),('access','SplayTree.__contains__/insert/remove')], (), ['in','root value','inorder_traverse'])

prop('C18', 'A treap is a search tree and a heap on priorities for all priorities',
 "After any history of insertions (with given or randomly drawn priorities) and removals of numbers, a treap holds exactly the numbers inserted and not removed since in search order, with length, membership, minimum and maximum agreeing with that set. No node has a higher priority than its parent, every surviving number keeps the priority it was inserted with, and this holds for all priorities, negative ones included, and all random draws.",
 HI+['configurations'], 'every history of insertions and removals, every assignment of numeric priorities and every random draw',
 'tests use seeded priorities between 0 and 100; the claim is over all numeric priorities, ties and histories',
 [T+'treap.py',T+'bst.py'], [('rotate up on insertion','Treap.insert'),('rotate down on removal','Treap.remove')], [('priority','heap key','TreapNode._priority')], ['in','inorder_traverse','node priorities'])

prop('C19', 'Min and max heaps keep heap order and exactly the inserted numbers',
 "After any history of insertions and removals of numbers (by value, of the minimum or of the maximum), a heap holds exactly the multiset of numbers inserted minus those removed, one occurrence per removal; length, membership and conversion to a list agree with that multiset. In a min heap no stored number is smaller than its parent's and the reported minimum and maximum are the true ones; a max heap is the mirror image; removing an absent number warns and changes nothing.",
 HI, 'every history of insertions and removals, duplicates included, of every length',
 'tests remove from a few scripted heaps; removal in the middle can violate the order upwards as well as downwards depending on values tests never reach',
 [T+'_heap.py',T+'min_heap.py',T+'max_heap.py'], [('sift up','Heap.insert'),('removal and sift','Heap.remove/__rebalance'),('extremes','MinHeap/MaxHeap.get_min/get_max')], [('array','implicit complete binary tree','Heap._heap')], ['get_min','get_max','len','in','to_list'])

prop('C20', 'A trie stores exactly its set of words and completes prefixes exactly',
 "After any history of insertions and removals of words over any characters, a trie contains exactly the words inserted and not removed since. A string is reported as a prefix exactly when it is empty or some stored word starts with it, auto-completion of a prefix lists exactly the stored words starting with it, each once, and inserting or removing a word never affects the other words; the size is one plus the number of distinct non-empty prefixes of stored words.",
 HI, 'every history of insertions and removals of every word, every query string',
 'tests use a few fixed vocabularies; shared-prefix interactions and unusual characters range over all words and histories',
 [T+'trie.py'], [('path following','Trie._follow_path'),('insertion and pruning removal','Trie.insert/Trie.remove'),('completion','Trie.auto_complete/_get_candidates')], [('word flag','node ends a word','TrieNode._is_word')], ['in','has_prefix','auto_complete','len'])

prop('C21', 'A radix trie stores exactly its set of words with compressed edges',
 "After any history of insertions and removals of words over any characters, a radix trie contains exactly the words inserted and not removed since. A string is reported as a prefix exactly when it is empty or some stored word starts with it, auto-completion of a prefix lists exactly the stored words starting with it, each once, and inserting or removing a word (splitting or pruning labels) never affects the other words. Labels are never empty and siblings never start with the same character.",
 HI, 'every history of insertions and removals of every word, every query string',
 'tests use a few fixed vocabularies; label splitting at every offset against every existing label is a claim over all words',
 [T+'radix_trie.py',T+'trie.py'], [('label splitting','RadixTrie._insert, get_lcp'),('path following','Trie._follow_path'),('completion','RadixTrie.auto_complete')], [('label','edge string','TrieNode._data')], ['in','has_prefix','auto_complete'])

prop('C22', 'A suffix trie answers substring questions about its word exactly',
 "For every non-empty word over characters that sort after the dollar sign, a string without a dollar sign is reported as a substring exactly when it occurs in the word, and the number of occurrences reported for a non-empty pattern without a dollar sign is its number of (possibly overlapping) occurrences, zero when there is none. The suffix array lists the starting positions of all suffixes, the empty one included, each once and in lexicographic order of the suffixes.",
 ['inputs'], 'every word and every query string',
 'tests check a few fixed words; the claim is over all words and patterns',
 [T+'suffix_trie.py',T+'radix_trie.py'], [('suffix insertion','SuffixTrie.__init__, RadixTrie._insert'),('queries','SuffixTrie.has_substring/count_pattern_occurrences/to_suffix_array')], (), ['has_substring','count_pattern_occurrences','to_suffix_array'])

prop('C23', 'Rejected input leaves lists, stacks and queues untouched',
 "Whenever an operation on a linked list of any kind, a stack, queue, deque or priority queue rejects its arguments (a missing item, an item that is itself one of the library's collections, an out-of-range, negative or non-integer index where these are not allowed, a bad capacity, priority, flag, distance or operand type), it raises the documented error kind for that reason and the collection it was called on is exactly as before. No other error escapes from a public operation called on a valid collection.",
 HI, 'every public mutating operation, every collection state and every unacceptable argument',
 'tests try a few bad arguments and never look at the collection afterwards; the claim is over all states and all bad arguments',
 [L+'linked_list.py',L+'doubly_linked_list.py',L+'circular_linked_list.py',L+'stack.py',L+'queue.py',L+'deque.py',L+'priority_queue.py',L+'skip_list.py','extra/interface.py'], [('item validation','Extra._validate_item'),('index validation','LinkedList._validate_index, CircularLinkedList._validate_index'),('capacity, flag and distance validation','Stack.__init__, Queue.__init__, LinkedList._validate_rotation_distance')], (), ['raised error','collection afterwards'])

prop('C24', 'Rejected input leaves trees, heaps and tries untouched',
 "Whenever an insertion or a query on a search tree, heap or trie rejects its argument (a missing value, a library collection, a non-number, a word that is blank or no string, a bad priority or traversal name), it raises the documented error kind and the structure is exactly as before. Removing a value of an unsupported type only warns and changes nothing, and asking an empty tree or heap for its minimum or maximum raises an index error.",
 HI, 'every insertion, removal and query, every structure state and every unacceptable argument',
 'tests try a few bad arguments and never look at the structure afterwards; the claim is over all states and all bad arguments',
 [T+'bst.py',T+'avl.py',T+'red_black_tree.py',T+'splay_tree.py',T+'treap.py',T+'_heap.py',T+'binary_tree.py',T+'trie.py',T+'radix_trie.py'], [('value validation','BST._validate_item, Heap._validate_item, Trie._validate_item'),('type screening on removal','BST.remove, Heap.remove')], (), ['raised error','structure afterwards'])

prop('C25', 'Looking at a collection never changes it',
 "Asking a list, stack, queue, tree, search tree, heap or trie for its length, emptiness, fullness, an item, membership, a count, a comparison, a copy or conversion, an extreme value, a prefix or a completion, and asking a list or tree for an iteration, a traversal, a view or a shape fact, leaves it exactly as it was, so repeating the question gives the same answer. The only exception is a splay tree, where a membership test may change the shape but not the set held.",
 HI, 'every query operation, every collection state and every argument',
 'tests query once and rarely re-inspect the collection; the claim is over all states and arguments',
 [L+'linked_list.py',L+'doubly_linked_list.py',L+'circular_linked_list.py',L+'stack.py',L+'queue.py',L+'deque.py',T+'tree.py',T+'binary_tree.py',T+'bst.py',T+'_heap.py',T+'trie.py',T+'radix_trie.py'], [('read-only walks','LinkedList.__iter__/_search/_compare, Tree.__iter__/_search, BST._search, Heap.__contains__')], (), ['any later observation'])

prop('C26', 'The longest repeated substrings are found exactly',
 "For every non-empty word over characters that sort after the dollar sign, the longest repeated (common) substrings a suffix trie reports are exactly the longest strings that occur at least twice in the word, each reported once.",
 ['inputs'], 'every word',
 'tests check a few fixed words; the claim is over all words',
 [T+'suffix_trie.py',T+'tree.py'], [('longest shared path','SuffixTrie.get_longest_common_substring/_get_ancestors_data')], (), ['get_longest_common_substring','get_longest_repeated_substring'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
