"""Heap predicates: list segments (singly and doubly linked) and auto-unfolding."""
import z3
from .state import *


# how the element of a node cell is made of fields (per exact node class)
NODE_ELEM = {}      # cls -> (kind, unpack(path, elem)->fields, pack(path, cell)->elem)


def node_class(cls, kind, unpack, pack, inv=None):
    NODE_ELEM[cls] = (kind, unpack, pack, inv or (lambda p, e: []))


class LSeg:
    """x ..S.. y : S empty iff x is y; nodes of exact class cls.
    dl: doubly linked, px = prev of the first node, ly = the last node (px when empty)."""
    kind = 'lseg'
    ne = False

    def __init__(self, x, y, S, cls, dl=False, px=None, ly=None, lock=None):
        self.x, self.y, self.S, self.cls = x, y, S, cls
        self.dl, self.px, self.ly, self.lock = dl, px, ly, lock

    def copy(self):
        return LSeg(self.x, self.y, self.S, self.cls, self.dl, self.px, self.ly, self.lock)

    def __repr__(self):
        return 'lseg(%r,%r,%r%s)' % (self.x, self.y, self.S, ',px=%r,ly=%r' % (self.px, self.ly) if self.dl else '')

    def bases(self):
        return [self.x] + ([self.ly] if self.dl else [])

    # nonempty known?
    def unfold_front(self, p):
        d, rest = p.uncons(self.S)
        p.nonnull_ref(self.x)
        n = p.fresh_ref()
        kind, unpack, pack, inv = NODE_ELEM[self.cls]
        fields = unpack(p, d)
        fields['_next'] = n
        if self.dl:
            fields['_prev'] = self.px
        for f in inv(p, d):
            p.assume(f)
        p.chunks.remove(self)
        add_cell(p, Cell(self.x, self.cls, fields, self.lock))
        p.chunks.append(LSeg(n, self.y, rest, self.cls, self.dl, self.x, self.ly, self.lock))
        p.heap_normalize()

    def unfold_back(self, p):
        rest, d = p.unsnoc(self.S)
        p.nonnull_ref(self.ly)
        q = p.fresh_ref()
        kind, unpack, pack, inv = NODE_ELEM[self.cls]
        fields = unpack(p, d)
        fields['_next'] = self.y
        fields['_prev'] = q
        for f in inv(p, d):
            p.assume(f)
        p.chunks.remove(self)
        add_cell(p, Cell(self.ly, self.cls, fields, self.lock))
        p.chunks.append(LSeg(self.x, self.ly, rest, self.cls, True, self.px, q, self.lock))
        p.heap_normalize()

    def make_empty(self, p):
        p.is_empty_seq(self.S)
        if self in p.chunks:
            p.chunks.remove(self)
        p.union(self.x, self.y)
        if self.dl:
            p.union(self.px, self.ly)

    def normalize(self, p):
        """returns True when something changed"""
        S = p.norm(self.S)
        if not S.atoms:
            p.chunks.remove(self)
            p.union(self.x, self.y)
            if self.dl:
                p.union(self.px, self.ly)
            return True
        if p.is_null(self.x) is True or (p.rep_any(self.x) in p.cells) or \
                (self.dl and (p.is_null(self.ly) is True or p.rep_any(self.ly) in p.cells)):
            # a node cannot be there: empty
            p.assume(p.as_z3int(p.length(S)) == 0)
            empty_out(p, S)
            return True
        if any(isinstance(a, Unit) for a in S.atoms):
            p.nonnull_ref(self.x)
            if self.dl:
                p.nonnull_ref(self.ly)
                if len(S.atoms) == 1 and p.known_eq(self.x, self.ly) is not True:
                    p.union(self.x, self.ly)
                    return True
        elif not self.ne and p.known_eq(self.x, self.y) is False:
            self.ne = True
            p.assume(p.as_z3int(p.length(S)) >= 1)
        return False


def empty_out(p, S):
    for a in p.norm(S).atoms:
        if isinstance(a, Unit):
            raise Infeasible()
        if isinstance(a, SVar):
            if a.id not in p.ssub:
                p.seq_bind(a, EMPTY)
        elif a.fn == 'rev' or a.fn.startswith('map'):
            if a.x.id not in p.ssub:
                p.seq_bind(a.x, EMPTY)
        elif a.fn in ('sel', 'rsel'):
            p.sel_kill(a)
        else:
            p.dead.add((a.fn, akey(a.args), a.x.id))


def _rep_any(self, r):
    return 0 if r is None else self.rep(r)


def _nonnull_ref(self, r):
    if r is None:
        raise Infeasible()
    i = self.rep(r)
    if i == 0:
        raise Infeasible()
    self.nonnull[i] = True


Path.rep_any = _rep_any
Path.nonnull_ref = _nonnull_ref


def add_cell(p, cell):
    i = p.rep(cell.ref)
    if i == 0 or i in p.cells:
        raise Infeasible()
    p.nonnull[i] = True
    if p.refcls[i] is None:
        p.refcls[i] = cell.cls
    p.cells[i] = cell


def normalize_heap(p):
    changed = True
    while changed:
        changed = False
        for c in list(p.chunks):
            if c in p.chunks and c.normalize(p):
                changed = True
                break


def find_cell(p, ref, want=True):
    """The open cell of ref, unfolding predicates as needed; None when there is none."""
    if ref is None or p.is_null(ref) is True:
        return None
    for _ in range(200):
        i = p.rep(ref)
        if i == 0:
            return None
        if i in p.cells:
            return p.cells[i]
        if not _expose(p, ref):
            return None
    raise Unsupported('unfolding does not terminate')


def _expose(p, ref):
    """Try to bring the cell of ref out of some chunk. Returns True when the heap changed."""
    i = p.rep(ref)
    for c in list(p.chunks):
        if isinstance(c, LSeg):
            if p.rep_any(c.x) == i:
                if p.is_empty_seq(c.S):
                    normalize_heap(p)
                else:
                    c.unfold_front(p)
                return True
            if c.dl and p.rep_any(c.ly) == i:
                if p.is_empty_seq(c.S):
                    normalize_heap(p)
                else:
                    c.unfold_back(p)
                return True
        else:
            r = c.expose(p, ref)
            if r:
                return True
    if 'tries' in p.__dict__:
        from .tries import expose
        return expose(p, ref)
    if 'views' in p.__dict__:
        from .views import expose
        return expose(p, ref)
    # an unknown reference may be the base of a possibly empty segment reached through equality
    return False


def consume_lseg(p, x, y, cls, dl=False, px=None, length=None, label='list segment', take=None):
    """Take the segment from x to y out of the heap. Returns (S, last).
    length: expected length (needed when x may equal y); take(lock) judges the tags of what is taken."""
    take = take or (lambda lock: None)
    S = EMPTY
    cur, prev = x, px
    last = px
    if y is not None and p.is_null(y) is not True and p.known_eq(x, y) is not True:
        find_cell(p, y)
    for _ in range(400):
        at_end = p.known_eq(cur, y)
        if at_end is True:
            if length is None:
                break
            d = length - p.length(S)
            if (isinstance(d, int) and d == 0) or (not isinstance(d, int) and p.entails(d == 0)):
                break
            if y is None or p.is_null(y) is True:
                break
        elif at_end is None and length is not None:
            d = length - p.length(S)
            if (isinstance(d, int) and d == 0) or (not isinstance(d, int) and p.entails(d == 0)):
                if p.ref_eq(cur, y):
                    continue
                p.fail('%s: end is not reached' % label)
        i = p.rep_any(cur)
        if i in p.cells:
            c = p.cells[i]
            if c.cls != cls:
                p.fail('%s: node of class %s' % (label, c.cls))
            take(c.lock)
            kind, unpack, pack, inv = NODE_ELEM[cls]
            e = pack(p, c)
            if e is None:
                p.fail('%s: node without proper content' % label)
            for f in inv(p, e):
                p.prove(f, label + ' (stored value)')
            if dl:
                pv = c.fields.get('_prev')
                if not p.known_eq(pv, prev):
                    if p.known_eq(pv, prev) is False or p.ref_eq(pv, prev) is False:
                        p.fail('%s: back link of a node is wrong' % label, (cur, prev, x, y, px, S))
                    continue
            if '_next' not in c.fields:
                p.fail('%s: node without next link' % label)
            nx = c.fields['_next']
            if not (nx is None or isinstance(nx, Ref)):
                p.fail('%s: next link is not a node' % label)
            del p.cells[p.rep(cur)]
            S = S + unit(e)
            last = cur
            prev = cur
            cur = nx
            continue
        ch = None
        for c in p.chunks:
            if isinstance(c, LSeg) and p.rep_any(c.x) == i and c.cls == cls and c.dl == dl:
                ch = c
                break
        if ch is None:
            if p.is_null(cur) is not True and _expose(p, cur):
                continue
            if at_end is None:
                if p.ref_eq(cur, y):
                    continue
            if at_end is True:
                break
            p.fail('%s: the chain of nodes is broken' % label)
        if dl and not p.known_eq(ch.px, prev):
            if p.is_empty_seq(ch.S):
                normalize_heap(p)
                continue
            if p.known_eq(ch.px, prev) is False or p.ref_eq(ch.px, prev) is False:
                p.fail('%s: back link of a node is wrong' % label, (cur, prev, x, y, px, S))
        take(ch.lock)
        p.chunks.remove(ch)
        S = S + ch.S
        if dl:
            last = ch.ly
            prev = ch.ly
        cur = ch.y
    else:
        p.fail('%s: too long' % label)
    return p.norm(S), last


def snapshot(p):
    return ([c.copy() for c in p.cells.values()], [c.copy() for c in p.chunks])


def restore(p, snap, keep_new=True):
    cells, chunks = snap
    p.cells = {}
    for c in cells:
        i = p.rep(c.ref)
        if i == 0 or i in p.cells:
            raise Infeasible()
        p.cells[i] = c
    p.chunks = list(chunks)
    normalize_heap(p)
