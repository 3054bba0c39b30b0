"""Which contracts decide which property."""
import os
MODULES = ['lists', 'queues', 'skip', 'search', 'heaps', 'trees', 'tries', 'suffix']
PROPS = ['C%02d' % i for i in range(1, 27)]
LISTS = {'LinkedList', 'DoublyLinkedList', 'CircularLinkedList'}
C23_CLASSES = LISTS | {'Stack', 'Queue', 'Deque', 'PriorityQueue', 'SkipList'}

HEAVY = {'enqueue': 40, 'dequeue': 20, '__getitem__': 50, 'remove': 20, 'rotate_left': 10, 'rotate_right': 10, '__init__': 10, 'extend': 9}


def weight(name, cls):
    if cls == 'SkipList':
        return {'remove': 90, '_search': 60}.get(name, 5)
    if '@leaf' in name:
        return 95 if name.startswith('_insert') else 10
    return HEAVY.get(name, 1)


def tasks(prop, reg):
    out = []
    for (name, cls), s in reg.specs.items():
        if prop == 'C23':
            if cls in C23_CLASSES:
                out.append((name, cls, 'reject'))
        elif prop == 'C24':
            if cls is not None and cls not in C23_CLASSES:
                out.append((name, cls, 'reject'))
        elif prop == 'C25':
            if cls is not None:
                out.append((name, cls, 'pure'))
        elif prop in s.props and main_class(prop, cls):
            out.append((name, cls, 'main'))
    return out


OWN = {'C01': {'LinkedList'}, 'C02': {'DoublyLinkedList'}, 'C03': {'CircularLinkedList'},
       'C20': {'Trie'}, 'C21': {'RadixTrie', None}, 'C14': {'BST'}, 'C15': {'AVL'}, 'C16': {'RedBlackTree'}, 'C17': {'SplayTree'}, 'C18': {'Treap'}}


def main_class(prop, cls):
    return prop not in OWN or cls in OWN[prop]


def fals_seconds(prop, tier):
    return 12 if tier == 'quick' else 240


def hints(names):
    h = set()
    for n in names:
        m = n.split('.')[-1]
        h |= {'__init__': {'init', 'init_from'}, '__getitem__': {'getitem', 'slice'}, '__setitem__': {'setitem'},
              '__delitem__': {'delitem'}}.get(m, set())
    return h


def level(prop):
    return 'proof'


def bounded(prop):
    return []


def explain(prop):
    return ''


def trusted(prop):
    return ['pv/ (symbolic executor for the Python subset, heap segments, sequence theory)', 'z3', 'cvc5',
            'specs/ (the contracts as statements of the property)', 'CPython built-ins as modelled in pv/builtins.py']


ASSUMPTIONS = [
    'items compare by an equivalence relation == and, where ordered, by a total order (NaN excluded); == and < of items '
    'have no side effects',
    'integers are unbounded; floating-point numbers are treated as reals ordered totally, with the two infinities',
    'no recursion limit, memory limit or interrupt stops an operation half way',
    'objects are only changed through the public operations',
    'iterables given to constructors are finite and do not change the collection while it reads them',
]
CLAIMED = ['C%02d' % i for i in range(1, 12)] + ['C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25']


def technique(p):
    return 'deductive verification: contracts and loop invariants discharged by z3 on the current source'


def note(p):
    return ('Every public operation the property names is verified against its contract for all inputs, states and '
            'iterations, from the current source on every run; callers use callee contracts. Trusted: the verifier in '
            'pv/, z3, the models of Python built-ins, the stated assumptions (DESIGN.md). A bounded history search on the '
            'real code runs beside it and is not counted as proof.')


def reason(p):
    return {
        'C26': 'the answer is collected from per-level lists of all nodes and from walks up the parent links into a set; no contract '
               'for the per-level lists (a list of lists of nodes filled by recursion) is within reach, and the bounded search '
               'over short words in fals/ is no proof',
    }.get(p, 'contracts not written yet')
