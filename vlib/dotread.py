"""Reads an exported graph back: nodes, edges and the rows of the labels."""
import re
import xml.etree.ElementTree as ET

TOK = re.compile(r'\s+|//[^\n]*\n|/\*.*?\*/|(?P<s>"(?:[^"\\]|\\.)*")|(?P<w>[A-Za-z_0-9.\x80-\U0010ffff]+)'
                 r'|(?P<p>->|--|[{}\[\];,=:])|(?P<h><)', re.S)


class Bad(Exception):
    pass


def tokens(t):
    i = 0
    out = []
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            raise Bad("unexpected %r" % t[i:i + 20])
        if m.group("h"):
            d = 0
            k = i
            while True:
                if k >= len(t):
                    raise Bad("open label")
                if t[k] == "<":
                    d += 1
                elif t[k] == ">":
                    d -= 1
                    if not d:
                        break
                k += 1
            out.append(("h", t[i + 1:k]))
            i = k + 1
            continue
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


class Graph:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.defs = []      # (id, attributes)
        self.edges = []     # (source, destination, attributes)
        self.refs = set()
        if self.next() != ("w", "digraph"):
            raise Bad("no digraph")
        if self.peek() != ("p", "{"):
            self.next()
        self.block()
        if self.i != len(self.t):
            raise Bad("text after the graph")

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("", "")

    def next(self):
        x = self.peek()
        if not x[0]:
            raise Bad("unexpected end")
        self.i += 1
        return x

    def attrs(self):
        a = {}
        while self.peek() == ("p", "["):
            self.next()
            while self.peek() != ("p", "]"):
                k = self.next()
                if k[0] == "p":
                    if k[1] in ",;":
                        continue
                    raise Bad("attribute")
                if self.next() != ("p", "="):
                    raise Bad("attribute")
                v = self.next()
                if v[0] == "p" or k[1] in a:
                    raise Bad("attribute")
                a[k[1]] = v
            self.next()
        return a

    def block(self):
        if self.next() != ("p", "{"):
            raise Bad("no block")
        while True:
            k, v = self.peek()
            if (k, v) == ("p", "}"):
                self.next()
                return
            if (k, v) == ("p", ";"):
                self.next()
            elif (k, v) == ("p", "{"):
                self.block()
            elif (k, v) == ("w", "subgraph"):
                self.next()
                if self.peek() != ("p", "{"):
                    self.next()
                self.block()
            elif k in "ws" and k:
                self.next()
                n = self.peek()
                if n == ("p", "="):
                    self.next()
                    self.next()
                elif n == ("p", "->"):
                    self.next()
                    d = self.next()
                    if d[0] == "p":
                        raise Bad("edge")
                    self.edges.append((v, d[1], self.attrs()))
                elif v in ("graph", "node", "edge"):
                    self.attrs()
                elif n == ("p", "["):
                    self.defs.append((v, self.attrs()))
                else:
                    self.refs.add(v)
            else:
                raise Bad("unexpected %s" % v)


def text_of(e):
    return "".join(e.itertext())


def label(h):
    try:
        e = ET.fromstring("<label>" + h + "</label>")
    except ET.ParseError as x:
        raise Bad("label %s: %s" % (h, x))
    rows = []
    part = 0
    parts = [[]]
    for x in e.iter():
        if x.tag in ("hr", "HR"):
            parts.append([])
        elif x.tag in ("tr", "TR"):
            parts[-1].append(text_of(x))
    if not parts[0] or len(parts) > 2:
        raise Bad("rows of the label")
    head = parts[0].pop(0)
    k = head.rfind(" (Flag: ")
    if k < 0 or head[-1] != ")":
        raise Bad("head of the label: " + head)
    return head[:k], {"flag": head[k + 8:-1], "cons": parts[0], "locs": parts[1] if len(parts) > 1 else []}


def read(text):
    try:
        g = Graph(text)
        nodes = {}
        groups = {}
        ident = {}
        for i, a in g.defs:
            if i in ident or "label" not in a:
                raise Bad("node " + i)
            k, v = a["label"]
            if k == "h":
                n, row = label(v)
                if n in nodes:
                    raise Bad("two nodes for " + n)
                nodes[n] = row
                ident[i] = n
            else:
                ident[i] = None
        par = {}
        for s, d, a in g.edges:
            par.setdefault(d, []).append(s)
        for i, a in g.defs:
            if ident[i] is None:
                p = par.get(i, [])
                if len(p) != 1 or not ident.get(p[0]):
                    raise Bad("group " + i)
        for i, a in g.defs:
            if ident[i] is None:
                ident[i] = "#" + ident[par[i][0]]
                if ident[i] in groups:
                    raise Bad("two groups")
                groups[ident[i]] = a["label"][1].strip('"')
        edges = []
        for s, d, a in g.edges:
            if s not in ident or d not in ident:
                raise Bad("edge without nodes")
            edges.append([ident[s], ident[d], a.get("arrowhead", ("", ""))[1]])
        if not g.refs <= set(ident):
            raise Bad("unknown nodes")
        return {"ok": True, "count": len(g.defs), "nodes": nodes, "groups": groups, "edges": edges}
    except Bad as x:
        return {"ok": False, "why": str(x)}
