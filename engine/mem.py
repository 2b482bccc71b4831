"""State memory: regions of bytes; a byte is concrete, a slice of a symbolic value, or not yet read (lazy)."""
import z3
from val import *

C, S, U = 0, 1, 2      # byte kinds: concrete, symbolic entry, unread/uninitialised
Z = [bytes(n) for n in range(65)]
_n = [0]


def fresh(name, w):
    _n[0] += 1
    return z3.BitVec('%s#%d' % (name, _n[0]), w)


class Region:
    __slots__ = ('rid', 'bid', 'start', 'size', 'data', 'kind', 'sym', 'w', 'own', 'name', 'tag')

    def __init__(self, rid, name, bid, start, size, data=None, w=True, lazy=False):
        self.rid = rid
        self.name = name
        self.bid = bid          # None: concrete start address
        self.start = start
        self.size = size
        self.data = data if data is not None else bytearray(size)
        self.kind = bytearray([U]) * size if lazy else bytearray(size)
        self.sym = {}
        self.w = w
        self.own = None
        self.tag = {}

    def copy(self, own):
        r = Region.__new__(Region)
        r.rid = self.rid; r.bid = self.bid; r.start = self.start; r.size = self.size
        r.data = self.data[:]; r.kind = self.kind[:]; r.sym = dict(self.sym)
        r.w = self.w; r.own = own; r.name = self.name
        r.tag = dict(self.tag)
        return r

    # all offsets below are in range
    def materialize(self, o, n):
        """turn unread bytes of [o,o+n) into symbols, whole aligned words where possible"""
        k = self.kind
        i = o
        while i < o + n:
            if k[i] != U:
                i += 1
                continue
            a = i & ~7
            if a + 8 <= self.size and k[a:a + 8] == b'\2' * 8:
                v = fresh('%s+%x' % (self.name, a), 64)
                self.tag[v] = a
                for j in range(8):
                    self.sym[a + j] = (v, j, 8)
                k[a:a + 8] = b'\1' * 8
                i = a + 8
            else:
                v = fresh('%s+%x' % (self.name, i), 8)
                self.tag[v] = i
                self.sym[i] = (v, 0, 1)
                k[i] = S
                i += 1

    def get(self, o, n):
        """value of n bytes at offset o"""
        if self.kind[o:o + n] == Z[n]:
            return int.from_bytes(self.data[o:o + n], 'little')
        if U in self.kind[o:o + n]:
            self.materialize(o, n)
        return compose(self.entries(o, n))

    def entries(self, o, n):
        k = self.kind
        if k[o:o + n] == bytes(n):
            return list(self.data[o:o + n])
        if U in k[o:o + n]:
            self.materialize(o, n)
        s = self.sym; d = self.data
        return [s[i] if k[i] else d[i] for i in range(o, o + n)]

    def put(self, o, n, v):
        if type(v) is int:
            self.data[o:o + n] = v.to_bytes(n, 'little')
            if self.kind[o:o + n] != Z[n]:
                self.kind[o:o + n] = Z[n]
        else:
            s = self.sym
            for i in range(n):
                s[o + i] = (v, i, n)
            self.kind[o:o + n] = b'\1' * n

    def put_entries(self, o, es):
        k = self.kind; s = self.sym; d = self.data
        for e in es:
            if type(e) is int:
                d[o] = e
                k[o] = C
            else:
                s[o] = e
                k[o] = S
            o += 1


def compose(es):
    """list of byte entries -> value"""
    n = len(es)
    e = es[0]
    if type(e) is not int:
        v, j, m = e
        if j == 0 and m == n:
            for i in range(1, n):
                f = es[i]
                if type(f) is int or f[0] is not v or f[1] != i:
                    break
            else:
                return v
    # general: runs
    parts = []
    i = 0
    while i < n:
        e = es[i]
        if type(e) is int:
            x = e; c = 1
            while i + c < n and type(es[i + c]) is int:
                x |= es[i + c] << (8 * c)
                c += 1
            parts.append((x, 8 * c))
        else:
            v, j, m = e
            c = 1
            while i + c < n:
                f = es[i + c]
                if type(f) is int or f[0] is not v or f[1] != j + c:
                    break
                c += 1
            parts.append((z3.Extract(8 * (j + c) - 1, 8 * j, bv(v, 8 * m)) if not (j == 0 and c == m) else v, 8 * c))
        i += c
    if len(parts) == 1:
        v = parts[0][0]
        return v if type(v) in (int, Ptr) else norm(v)
    return concat(parts[::-1])


def entries_of(v, n):
    if type(v) is int:
        return list(v.to_bytes(n, 'little'))
    return [(v, i, n) for i in range(n)]
