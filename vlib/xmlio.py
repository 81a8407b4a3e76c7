"""Documents of the specification (Xml.tla) as text."""
import random
from xml.sax.saxutils import escape

from . import tables


def con_text(a, rnd=None):
    o = a["o"]
    sp = (lambda: rnd.choice(["", " ", "  "])) if rnd else (lambda: " ")
    if o == "f":
        return a["n"]
    if o == "i":
        return a["v"]
    if o in "!~":
        return o + sp() * 0 + "(" + con_text(a["x"], rnd) + ")"
    l, r = con_text(a["l"], rnd), con_text(a["r"], rnd)
    if a["l"]["o"] not in "fi":
        l = "(" + l + ")"
    if a["r"]["o"] not in "fi":
        r = "(" + r + ")"
    return l + " " + o + " " + r


def step_str(s):
    c = ("%r" % s["c"])
    if s["o"] == "^":
        return "%s ^ x" % c if s.get("left") else "x ^ %s" % c
    return "%s %s x" % (c, s["o"]) if s.get("left") else "x %s %s" % (s["o"], c)


class Render:
    def __init__(self, deco):
        self.r = random.Random(deco)
        self.deco = deco

    def ws(self):
        if self.deco == 0:
            return ""
        return self.r.choice(["", " ", "\n", "\t ", "\n\n  "])

    def gap(self):
        """between elements"""
        if self.deco == 0:
            return ""
        return self.r.choice(["", "\n", "  ", "\n\t", "<!-- note -->", "\n<!--\n-->\n", "<?p i?>"])

    def raw(self, text, pad=True):
        w = self.ws if pad else (lambda: "")
        if self.deco and text and "]]>" not in text and self.r.random() < 0.15:
            k = self.r.randrange(len(text) + 1)
            body = escape(text[:k]) + "<![CDATA[" + text[k:] + "]]>"
        elif self.deco and text and self.r.random() < 0.15:
            k = self.r.randrange(len(text) + 1)
            body = escape(text[:k]) + "<!-- x -->" + escape(text[k:])
        elif self.deco and self.r.random() < 0.2:
            body = "".join("&#%d;" % ord(ch) if self.r.random() < 0.5 else escape(ch) for ch in text)
        else:
            body = escape(text)
        return w() + body + w()

    def el(self, name, text, pad=True, attrs=""):
        return "<%s%s>%s</%s>" % (name, attrs, self.raw(text, pad), name)

    def box(self, name, parts, attrs=""):
        return "<%s%s>%s%s</%s>" % (name, attrs, "".join(self.gap() + p for p in parts), self.gap(), name)

    def attrs(self, pairs):
        pairs = list(pairs)
        if self.deco:
            self.r.shuffle(pairs)
        q = self.r.choice("\"'") if self.deco else '"'
        return "".join(" %s=%s%s%s" % (k, q, escape(v, {'"': "&quot;", "'": "&apos;"}), q) for k, v in pairs)

    def loc(self, l, flaw=None):
        p = []
        if l.get("rev"):
            p.append(self.box("revisionRange", [self.el("introduced", l["rev"][0])] +
                              ([self.el("removed", l["rev"][1])] if len(l["rev"]) > 1 else [])))
        p.append(self.el("path", l["path"]))

        def pos(k, n):
            return self.box(n, [self.el("line", str(l[k][0])), self.el("column", str(l[k][1]))])
        if flaw != "nostart":
            p.append(pos("s", "start"))
        p.append(pos("e", "end"))
        if l.get("mo"):
            p.append(self.el("memberOffset", l["mo"]))
        cat = "inessential" if l.get("cat") == "i" else "necessary"
        a = [("category", cat)]
        if flaw == "badcategory":
            a = [("category", "important")]
        elif cat == "necessary" and self.deco and self.r.random() < 0.5:
            a = []
        return self.box("sourceRange", p, self.attrs(a))

    def option(self, o, flaw=None):
        at = tables.ATTRS[o["at"]]
        p = [self.el("name", o["n"])]
        if at.get("out"):
            # leading white space is dropped, trailing is part of the value
            p.append("<outputString>%s%s</outputString>" % (self.ws(), self.raw(at["out"], False)))
        elif self.deco and self.r.random() < 0.2:
            p.append(self.r.choice(["<outputString/>", "<outputString> </outputString>"]))
        if self.deco and self.r.random() < 0.2:
            p.append(self.r.choice(["<prefix>-</prefix>", "<preFix></preFix>"]))
        if self.deco and self.r.random() < 0.2:
            p.append(self.r.choice(["<postfix>-</postfix>", "<postFix/>"]))
        if o["par"] != "?":
            p.append(self.el("parent", o["par"]))
        elif self.deco and self.r.random() < 0.3:
            p.append(self.r.choice(["<parent/>", "<parent> </parent>", "<parent></parent>"]))

        def names(tag, ns):
            if ns:
                p.append(self.box(tag, [self.el("options", n) for n in ns]))
            elif self.deco and self.r.random() < 0.3:
                p.append(self.r.choice(["<%s/>", "<%s></%s>"]).replace("%s", tag))
        names("children", o["kids"])
        names("impliedOptions", o["impl"])
        names("excludedOptions", o["excl"])
        if self.deco and self.r.random() < 0.2:
            p.append("<defaultValue>Selected</defaultValue>")
        if at.get("opt"):
            p.append(self.el("optional", "True"))
        elif not self.deco or self.r.random() < 0.6:
            p.append(self.el("optional", "False"))
        if at["k"] == "num":
            if "list" in at:
                sep = self.r.choice([";", "; ", " ; "]) if self.deco else ";"
                p.append(self.el("values", sep.join(str(v) for v in at["list"])))
            else:
                p.append(self.el("minValue", str(at["range"][0])))
                if flaw != "minonly":
                    p.append(self.el("maxValue", str(at["range"][1])))
            if "step" in at:
                p.append(self.el("stepFunction", step_str(at["step"])))
        if at.get("locs"):
            p.append(self.box("locations", [self.loc(tables.LOCS[l], flaw) for l in at["locs"]]))
        elif flaw in ("nostart", "badcategory"):
            p.append(self.box("locations", [self.loc(tables.LOCS["L1"], flaw)]))
        elif self.deco and self.r.random() < 0.2:
            p.append("<locations/>")
        if flaw == "noname":
            p = p[1:]
        if flaw == "order":
            p = p[1:2] + p[:1] + p[2:]
        if flaw == "badelement":
            p.insert(self.r.randrange(1, len(p)), "<colour>red</colour>")
        if flaw == "strayattr":
            return self.box("configurationOption", p, ' id="1"')
        return self.box("configurationOption", p)


UNREADABLE = ["a &", "(a", "a b", "| a", "a => => b", "", "a)", "()"]


def render(doc, deco):
    R = Render(deco)
    flaw = doc["flaw"]
    if flaw == "empty":
        return ["", " ", "\n"][deco % 3]
    if flaw == "nonsense":
        return ["vm", "<", "<vm", "\0", "<vm name='x'><binaryOptions></vm>", "{}", "<?xml version='1.0'?>",
                "<vm name='a' name='b'><binaryOptions/></vm>", "<vm name='a'><binaryOptions/></vm><vm/>",
                "<vm name=a><binaryOptions/></vm>", "<vm name='&u;'><binaryOptions/></vm>"][deco % 11]
    if flaw == "unspecified":
        return unspecified(R, doc, deco)
    opts = doc["opts"]
    num = [o for o in opts if tables.ATTRS[o["at"]]["k"] == "num"]
    bin_ = [o for o in opts if tables.ATTRS[o["at"]]["k"] != "num"]
    per = {"noname": 1, "order": 1, "badelement": 1, "badcategory": 1, "nostart": 1, "strayattr": 1, "minonly": 0}
    if flaw == "minonly":
        num = num + [{"n": "mo", "at": "n0", "par": "?", "kids": [], "impl": [], "excl": []}]

    def opt(o, last):
        return R.option(o, flaw if flaw in per and last else None)
    hit = deco % max(1, len(bin_))
    sec = [R.box("binaryOptions", [opt(o, k == hit and flaw != "minonly") for k, o in enumerate(bin_)])]
    if num or not deco or R.r.random() < 0.5:
        sec.append(R.box("numericOptions", [opt(o, flaw == "minonly" and o["n"] == "mo") for o in num]))

    def cons(tag, texts, attrs=None):
        if flaw == {"booleanConstraints": "badcb", "nonBooleanConstraints": "badcn",
                    "mixedConstraints": "badcx"}[tag]:
            texts = list(texts)
            texts.insert(deco % (len(texts) + 1), UNREADABLE[deco % len(UNREADABLE)])
            attrs = attrs and attrs + [("all", "pos")]
        if not texts and (not deco or R.r.random() < 0.5):
            return
        parts = []
        for k, t in enumerate(texts):
            at = ""
            if attrs:
                at = R.attrs([(n, v) for n, v in zip(("req", "exprKind"), attrs[k]) if v != "?"])
            parts.append(R.el("constraint", t, attrs=at))
        sec.append(R.box(tag, parts))
    rnd = R.r if deco else None
    cons("booleanConstraints", [con_text(a, rnd) for a in doc["cb"]])
    cons("nonBooleanConstraints", [con_text(a, rnd) for a in doc["cn"]])
    cons("mixedConstraints", [con_text(c["a"], rnd) for c in doc["cx"]], [(c["req"], c["ek"]) for c in doc["cx"]])
    at = [("name", doc["name"])]
    if doc["path"] != "?":
        at.append(("root", doc["path"]))
    if doc["commit"] != "?":
        at.append(("commit", doc["commit"]))
    if flaw == "novmname":
        at = at[1:]
    if flaw == "twobinaries":
        sec.insert(deco % 2, sec[0])
    if flaw == "nobinaries":
        sec = sec[1:]
    if flaw == "sections":
        k = deco % (len(sec) - 1)
        sec[k], sec[k + 1] = sec[k + 1], sec[k]
    if flaw == "textinvm":
        sec.insert(deco % (len(sec) + 1), "text")
    root = "mv" if flaw == "otherroot" else "vm"
    head = ""
    if not deco or R.r.random() < 0.7:
        head = '<?xml version="1.0" encoding="UTF-8"?>\n'
    if not deco or R.r.random() < 0.5:
        head += '<!DOCTYPE %s SYSTEM "vm.dtd">\n' % root
    text = head + R.box(root, sec, R.attrs(at)) + R.r.choice(["", "\n"])
    if flaw == "truncated":
        end = len(text.rstrip()) - 1
        k = [len(head) + 5, end, end // 2, end - 3, len(head) + 40][deco % 5]
        text = text[:min(max(1, k), end)]
    return text


def unspecified(R, doc, deco):
    """texts without a stated meaning: they must only not do harm"""
    base = render(dict(doc, flaw=""), 0)
    subs = [("<maxValue>", "<maxValue>x"), ("<minValue>1", "<minValue>99999999999999999999"),
            ("<minValue>", "<minValue> - "), ("<values>1;2;4", "<values>1;two;;-;4-4"),
            ("<values>1;2;4", "<values>"), ("<values>1;2;4", "<values>9223372036854775808"),
            ("<line>1", "<line>-1"), ("<column>", "<column>x"), ("<line>1", "<line>99999999999"),
            ("<optional>True", "<optional>maybe"), ("<name>a", "<name>"), ("<name>b", "<name> "),
            ("<name>a", "<name>root"), ("<options>a", "<options>"), ("<stepFunction>", "<stepFunction>("),
            ("</numericOptions>", "<configurationOption><name>s</name><stepFunction>x +</stepFunction>"
             "</configurationOption></numericOptions>"),
            ("</numericOptions>", "<configurationOption><name>s</name></configurationOption></numericOptions>"),
            ("</binaryOptions>", "<configurationOption><name>s</name><minValue>1</minValue><maxValue>2</maxValue>"
             "</configurationOption></binaryOptions>"),
            ("<name>", "<name>" + "n" * 5000), ("a", "\u00e9"), ("vm", "VM"), ("<parent>a", "<parent>b"),
            ("<introduced>", "<introduced> "), ("1", "")]
    a, b = subs[deco % len(subs)]
    return base.replace(a, b, 1) if a not in ("a", "1") else base.replace(a, b)


# --------------------------------------------------------------------- SXFM
BAD_CLAUSES = ["x: a", "a or b: a", "a or", "or a", "a a", "a or or a", "~", "a ~ a", "(a", "a)", "a or ~", "| a", "a, a", "a or 'a'"]


def sxfm(doc, deco):
    R = Render(deco)
    r = R.r
    flaw = doc["flaw"]
    if flaw == "empty":
        return ["", " ", "\n"][deco % 3]
    if flaw == "nonsense":
        return ["<", "feature_model", "<feature_model", "<feature_model name='x'><feature_tree></feature_model>",
                "<feature_model name=x><feature_tree>:r a</feature_tree></feature_model>", "\0",
                "<feature_model><feature_tree>:r a &x;</feature_tree></feature_model>",
                "<vm name='a'><binaryOptions/></vm>"][deco % 8]
    ind = "\t" if not deco else r.choice(["\t", "\t", "  ", "    ", "..", ">", "ab", " \t"])
    lines = []
    hit = deco % max(1, len(doc["lines"]))

    def sp():
        return " " if not deco else r.choice([" ", " ", "  "])

    def fix(k, ln):
        pre = ind * ln["lvl"]
        t = {"c": ""}.get(ln["t"], ln["t"])
        nm, idt, card = ln["nm"], ln["id"], ln["card"]
        bad = k == hit and flaw
        idt = "(%s)" % idt if idt != "?" else ""
        name = nm + (r.choice(["", " "]) if deco and nm else " " if nm and idt else "") * bool(idt) + idt
        if ln["t"] == "g":
            if card == "NONE":
                card = ""
            elif card.startswith("OPEN "):
                card = "[" + card[5:]
            elif card.startswith("CLOSE "):
                card = card[6:] + "]"
            else:
                card = "[" + card + "]"
            parts = [card, name] if card else [name]
            if deco and not ln["card"].startswith(("OPEN", "CLOSE")) and r.random() < 0.5:
                parts.reverse()
            text = " ".join(x for x in parts if x)
        else:
            text = name
        if bad == "nocolon":
            return pre + t + " " + text
        if bad == "badtype":
            return pre + ":" + r.choice(["x", "M", "1", "*", ":", "["]) + " " + text
        if bad == "bare":
            return pre + ":"
        if bad == "shifted":
            extra = {"  ": " ", "    ": " ", " \t": "\t"}.get(ind, r.choice([" ", "  ", "   ", "x", "-"]))
            return (pre + extra if r.random() < 0.5 else extra + pre) + ":" + t + " " + text
        if bad == "glued" and t:
            return pre + ":" + t + r.choice(["x", "1", "_"]) + text
        if bad == "glued":
            return pre + ":" + "a" + text
        if bad == "notype":
            return pre + ":" + "a" + text
        if bad == "noindentation" and ln["lvl"]:
            return ":" + t + " " + text
        if bad == "noindentation":
            return ":" + "x " + text
        tail = r.choice(["", "", "", " ", "\t", "  "]) if deco else ""
        return pre + ":" + t + sp() + text + tail
    for k, ln in enumerate(doc["lines"]):
        lines.append(fix(k, ln))
        if deco and r.random() < 0.1:
            lines.append(r.choice(["", " ", "\t\t"]))
    tree = "\n".join([""] + lines + [""])
    cl = []
    cs = list(doc["clauses"])
    for k, c in enumerate(cs or []):
        orr = lambda: " or " if not deco else r.choice([" or ", " or ", "  or  "])
        t = ""
        for j, l in enumerate(c):
            t += (orr() if j else "") + ("~" if l["neg"] else "") + l["n"]
        lead = r.choice(["", "\t", "  "]) if deco else ""
        head = r.choice(["C%d:" % k, "c%d: " % k, "some name :", ":"]) if deco else "c%d: " % k
        if flaw.startswith("clause") and k == deco % len(cs):
            if flaw == "clausecolon":
                head = ""
            elif flaw == "clauseempty":
                t = r.choice(["", " ", "\t"])
            elif flaw == "clausebad":
                t = BAD_CLAUSES[(deco // len(cs)) % len(BAD_CLAUSES)].replace("a", doc["lines"][0]["nm"])
        cl.append(lead + head + t + (r.choice(["", "", " "]) if deco else ""))
        if deco and r.random() < 0.1:
            cl.append("")
    cons = "\n".join([""] + cl + [""])

    def raw(text):
        if deco and r.random() < 0.3:
            k = r.randrange(len(text) + 1)
            m = r.randrange(k, len(text) + 1)
            return escape(text[:k]) + "<![CDATA[" + text[k:m] + "]]><!-- n: -->" + escape(text[m:])
        return escape(text)
    at = ""
    if ind != "\t" or deco and r.random() < 0.3:
        at = ' indentation_string="%s"' % escape(ind).replace("\t", "&#9;")
    if flaw == "strayattr":
        at += ' level="1"'
    tr = "<feature_tree%s>%s</feature_tree>" % (at, raw(tree))
    parts = [tr]
    if cl or not deco or r.random() < 0.5:
        parts.append("<constraints>%s</constraints>" % raw(cons))
    if deco and r.random() < 0.5 or flaw in ("sections", "nodataname"):
        parts.insert(0, '<meta><data name="creator">x: y</data>%s</meta>' % ("<data>z</data>" if flaw == "nodataname" else "<data name='e'/>"))
    if flaw == "notree":
        parts.remove(tr)
    elif flaw == "twotrees":
        parts.insert(parts.index(tr), tr)
    elif flaw == "badelement":
        parts.insert(deco % (len(parts) + 1), "<colour/>")
    elif flaw == "sections":
        k = deco % (len(parts) - 1)
        parts[k], parts[k + 1] = parts[k + 1], parts[k]
    root = "feature_modell" if flaw == "otherroot" else "feature_model"
    name = "" if doc["name"] == "?" else ' name="%s"' % escape(doc["name"], {'"': "&quot;"})
    head = '<?xml version="1.0" encoding="UTF-8"?>\n' if deco and r.random() < 0.5 else ""
    if flaw == "unspecified":
        a, b = SX_UNSPECIFIED[deco % len(SX_UNSPECIFIED)]
        parts = [p.replace(a, b, 1) for p in parts]
    text = head + "<%s%s>%s</%s>\n" % (root, name, "".join(R.gap() + p for p in parts) + R.gap(), root)
    if flaw == "truncated":
        end = len(text.rstrip()) - 1
        text = text[:max(1, [len(head) + 5, end, end // 2, end - 3, len(head) + 40][deco % 5])]
    return text


SX_UNSPECIFIED = [
    (":o", ":o ("), (":m", ":m ["), (":g", ":g [[1,1]] "), ("[1,1]", "[ 1 , 1 ]"), (":r", ":r\n"), (":m man", ":m"),
    (":o opt", ":o opt,x"), ("(", "(("), (")", ""), ("(", "( "), (":c", ":: "), ("or", "and"), ("or", "=>"), ("~", "~~"),
    ("c1", "c1:c2"), (" or ", "\n"), ("opt", "\u00e9"), ("man", "n" * 5000), ("opt", "or"), (": a", ":a"),
    (":o ", ":o\u00a0"), ("[1,*]", "[1,*][1,1]"), ("<feature_tree", "<feature_tree indentation_string=''"),
    ("(i1)", "()"), ("i1", "*"), ("i1", "a.b"), (":r root", ":r :m"), ("~", "-"), ("~", "!"), ("c0: ", "c0: 5 or ")]
