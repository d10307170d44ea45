"""Trees of any shape, and what is in them by our own reckoning (C12, C13, C14)."""
from quickly.node import Node


class T(Node):
    """A node with a label."""
    __slots__ = ('label',)

    def __init__(self, label, *children):
        super().__init__(*children)
        self.label = label

    def copy(self, with_children=True):
        return type(self)(self.label, *((n.copy() for n in self) if with_children else ()))

    def body_equals(self, other):
        return self.label == other.label

    def __repr__(self):
        return '<%s>' % (self.label,)


class U(T):
    __slots__ = ()


class Shape:
    """A tree of n nodes in document order; every node has a depth.

    The oracle of a tree: everything is computed from the list of depths.
    """
    def __init__(self, depths):
        self.d = depths
        self.n = n = len(depths)
        self.parent = []
        for i in range(n):
            p = None
            for j in range(i):
                if depths[j] == depths[i] - 1:
                    p = j
            self.parent.append(p)
        self.kids = [[j for j in range(n) if self.parent[j] == i] for i in range(n)]
        self.end = []           # the first node after the node and its descendants
        for i in range(n):
            e = i + 1
            while e < n and depths[e] > depths[i]:
                e += 1
            self.end.append(e)
        self.mirror = []        # the order from the end
        self._mirror(0)
        self.mpos = [self.mirror.index(i) for i in range(n)]

    def _mirror(self, i):
        self.mirror.append(i)
        for k in reversed(self.kids[i]):
            self._mirror(k)

    def ancestors(self, i):
        r = []
        while self.parent[i] is not None:
            i = self.parent[i]
            r.append(i)
        return r

    def inside(self, i, a):
        """Whether i is a descendant of a."""
        return a < i < self.end[a]

    def descendants(self, i):
        return list(range(i + 1, self.end[i]))

    def rdescendants(self, i):
        return [j for j in self.mirror if self.inside(j, i)]

    def forward(self, i, upto=0):
        return [j for j in range(self.end[i], self.end[upto])]

    def backward(self, i, upto=0):
        """From the end, the nodes after this node and its descendants."""
        return [j for j in self.mirror if self.inside(j, upto) and j < i and i not in self.descendants(j)]

    def siblings(self, i):
        return self.kids[self.parent[i]] if i else [0]

    def index(self, i):
        return self.siblings(i).index(i)

    def trail(self, i, a=0):
        """The indices from a to i."""
        t = []
        while i != a:
            t.insert(0, self.index(i))
            i = self.parent[i]
        return t

    def common(self, i, j):
        a = [i] + self.ancestors(i)
        for k in [j] + self.ancestors(j):
            if k in a:
                return k

    def height(self, i):
        return max([0] + [self.d[j] - self.d[i] for j in self.descendants(i)])


def shape(ctx, n):
    """Any shape with n nodes (or the one where every node is in the one before)."""
    if 'deep' in ctx.params:
        return Shape(list(range(n)))
    d = [0]
    for i in range(1, n):
        d.append(ctx.size('depth%d' % i, 1, d[-1] + 1))
    return Shape(d)


def build(s, kinds=None):
    """The nodes of a tree, in document order."""
    nodes = [(kinds[i] if kinds else T)(i) for i in range(s.n)]
    for i in range(1, s.n):
        nodes[s.parent[i]].append(nodes[i])
    return nodes


def labels(nodes):
    return [n.label for n in nodes]
