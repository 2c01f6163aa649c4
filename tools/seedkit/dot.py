"""Strict parser for the DOT text the tool prints."""
import re


class DotError(Exception):
    pass


class Node:
    __slots__ = ("id", "label", "name", "local", "max", "maxkind", "dashed", "attrs")

    def __repr__(self):
        return f"<{self.id} {self.name!r} max {self.maxkind}{self.max} local={self.local}>"


class G:
    def __init__(self):
        self.nodes = {}
        self.edges = []  # list of (a, b), with multiplicity
        self.clusters = []  # list of (name, [ids])

    def succ(self):
        s = {i: set() for i in self.nodes}
        for a, b in self.edges:
            s[a].add(b)
        return s


TOKEN = re.compile(r'''\s*(?:
    (?P<str>"(?:[^"\\]|\\.|\\\n)*")
  | (?P<arrow>->)
  | (?P<punct>[\[\]{}=;,])
  | (?P<id>[A-Za-z_0-9.\-]+)
)''', re.X | re.S)


def tokens(text):
    i = 0
    out = []
    n = len(text)
    while i < n:
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            if text[i:].strip() == "":
                break
            raise DotError(f"unexpected character at {i}: {text[i:i+30]!r}")
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def unescape(lit):
    s = lit[1:-1]
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            d = s[i + 1]
            if d == "n":
                out.append("\n")
                i += 2
                continue
            if d in '"\\':
                out.append(d)
                i += 2
                continue
            raise DotError(f"unknown escape sequence in {lit!r}")
        out.append(c)
        i += 1
    return "".join(out)


def parse(text):
    t = tokens(text)
    p = 0

    def want(kind, val=None):
        nonlocal p
        if p >= len(t) or t[p][0] != kind or (val is not None and t[p][1] != val):
            raise DotError(f"expected {kind} {val!r}, got {t[p] if p < len(t) else 'EOF'} at token {p}")
        v = t[p][1]
        p += 1
        return v

    def peek(o=0):
        return t[p + o] if p + o < len(t) else (None, None)

    def attrs():
        nonlocal p
        d = {}
        want("punct", "[")
        while peek() != ("punct", "]"):
            k = want("id")
            want("punct", "=")
            kind, v = peek()
            if kind == "str":
                p += 1
                d[k] = unescape(v)
            else:
                d[k] = want("id")
            if peek() in (("punct", ","), ("punct", ";")):
                p += 1
        want("punct", "]")
        return d

    g = G()
    want("id", "digraph")
    if peek()[0] == "id":
        p += 1
    want("punct", "{")

    def stmts(cluster=None):
        nonlocal p
        while True:
            kind, v = peek()
            if kind is None:
                raise DotError("unterminated graph")
            if (kind, v) == ("punct", "}"):
                p += 1
                return
            if (kind, v) == ("punct", ";"):
                p += 1
                continue
            if kind == "id" and v == "subgraph":
                p += 1
                name = want("id")
                want("punct", "{")
                c = []
                g.clusters.append((name, c))
                stmts(c)
                continue
            if kind == "id" and v in ("node", "edge", "graph") and peek(1) == ("punct", "["):
                p += 1
                attrs()
                continue
            if kind not in ("id", "str"):
                raise DotError(f"unexpected token {t[p]} at {p}")
            p += 1
            nk, nv = peek()
            if (nk, nv) == ("punct", "="):
                p += 1
                if peek()[0] not in ("id", "str"):
                    raise DotError("bad attribute")
                p += 1
                continue
            if nk == "arrow":
                p += 1
                b = want("id")
                if peek() == ("punct", "["):
                    attrs()
                g.edges.append((v, b))
                continue
            if (nk, nv) == ("punct", "["):
                a = attrs()
                if cluster is not None:
                    cluster.append(v)
                if v in g.nodes:
                    raise DotError(f"node {v} declared twice")
                g.nodes[v] = mknode(v, a)
                continue
            # bare id: cluster membership
            if cluster is None:
                raise DotError(f"bare node {v} outside a cluster")
            cluster.append(v)

    stmts()
    if p != len(t):
        raise DotError(f"trailing text after the graph: {t[p:p+3]}")
    for a, b in g.edges:
        if a not in g.nodes or b not in g.nodes:
            raise DotError(f"edge {a} -> {b} refers to an undeclared node")
    for _, c in g.clusters:
        for x in c:
            if x not in g.nodes:
                raise DotError(f"cluster member {x} is not a declared node")
    return g


MAXRE = re.compile(r"max (=|>=) (\d+)\Z")
LOCRE = re.compile(r"local = (\d+|\?)\Z")


def mknode(i, a):
    n = Node()
    n.id = i
    n.attrs = a
    if "label" not in a:
        raise DotError(f"node {i} has no label")
    n.label = a["label"]
    lines = n.label.split("\n")
    m = LOCRE.match(lines[-1])
    if not m:
        raise DotError(f"node {i}: no local stack usage in label {n.label!r}")
    n.local = None if m.group(1) == "?" else int(m.group(1))
    n.max = n.maxkind = None
    rest = lines[:-1]
    if rest:
        m = MAXRE.match(rest[-1])
        if m:
            n.maxkind, n.max = m.group(1), int(m.group(2))
            rest = rest[:-1]
    n.name = "\n".join(rest)
    n.dashed = a.get("style") == "dashed"
    return n


def parse_top(text):
    """-> (max or None, [(usage, name)])"""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    mx = None
    i = 0
    if lines and re.match(r"\d+ MAX\Z", lines[0]):
        mx = int(lines[0].split()[0])
        i = 1
    if i >= len(lines) or lines[i].split() != ["Usage", "Function"]:
        raise DotError(f"missing header line, got {lines[:3]}")
    rows = []
    for l in lines[i + 1:]:
        m = re.match(r"(\d+) (.*)\Z", l)
        if not m:
            raise DotError(f"bad row {l!r}")
        rows.append((int(m.group(1)), unescape('"' + m.group(2) + '"')))
    return mx, rows
