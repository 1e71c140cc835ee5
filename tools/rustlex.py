"""A small Rust lexer and item splitter (enough for the code of /repo)."""
import re

class Tok:
    __slots__ = ("kind", "text", "line", "nl", "sp", "ann")
    def __init__(self, kind, text, line=0, nl=False, sp=False):
        self.kind, self.text, self.line, self.nl, self.sp = kind, text, line, nl, sp
        self.ann = []                      # annotations to be emitted before this token
    def copy(self):
        t = Tok(self.kind, self.text, self.line, self.nl, self.sp)
        t.ann = list(self.ann)
        return t
    def __repr__(self):
        return "%s" % self.text

RX = re.compile(r"""
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9a-zA-Z_]*)?)
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|<<=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|.)
""", re.X | re.S)
# `>>` and `>>=` are kept as single characters (generics); '&&' and '||' are joint, which is
# fine for the sources at hand.

class LexError(Exception):
    pass

def lex(src, annotated=False):
    """Token list. With annotated=True, /*@ ... @*/ comments are attached to the next token."""
    toks, i, line, nl, sp, ann = [], 0, 1, False, False, []
    n = len(src)
    while i < n:
        if annotated and src.startswith("/*@", i):
            j = src.index("@*/", i)
            ann.append((src[i + 3:j], line))
            line += src.count("\n", i, j + 3)
            i = j + 3
            sp = True
            continue
        m = RX.match(src, i)
        if not m:
            raise LexError("cannot lex at line %d: %r" % (line, src[i:i + 20]))
        k = m.lastgroup
        if k == "h":
            k = "raw"
        t = m.group(0)
        if k == "bc":                       # nested block comment
            depth, j = 1, i + 2
            while depth:
                a, b = src.find("/*", j), src.find("*/", j)
                if b < 0:
                    raise LexError("unterminated comment")
                if 0 <= a < b:
                    depth, j = depth + 1, a + 2
                else:
                    depth, j = depth - 1, b + 2
            t = src[i:j]
            sp = True
        elif k in ("ws", "lc"):
            sp = True
            if "\n" in t or k == "lc":
                nl = True
        else:
            tok = Tok({"op": "op", "id": "id", "life": "life", "num": "num"}.get(k, "lit"), t, line, nl, sp)
            tok.ann = ann
            ann = []
            toks.append(tok)
            nl = sp = False
        line += t.count("\n")
        i += len(t)
    if ann:
        e = Tok("eof", "", line, True, True)
        e.ann = ann
        toks.append(e)
    return toks

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}

def match_close(toks, i):
    """Index of the bracket closing the one at i."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j].text
        if toks[j].kind == "op":
            if t in OPEN:
                depth += 1
            elif t in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise LexError("unbalanced bracket at line %d" % toks[i].line)

class Item:
    """kind: fn struct enum impl trait const static type use mod macro; toks: all tokens of the
    item without attributes; attrs: list of attribute texts; subitems for impl and trait."""
    def __init__(self, kind, name, toks, attrs, line):
        self.kind, self.name, self.toks, self.attrs, self.line = kind, name, toks, attrs, line
        self.subs, self.key, self.body, self.head = [], None, None, None

def norm(toks):
    return " ".join(t.text for t in toks)

def parse_items(toks, container=""):
    items, i = [], 0
    while i < len(toks):
        start = i
        attrs = []
        pre_ann = []
        if toks[i].kind == "eof":
            it = Item("eof", "", [toks[i]], [], toks[i].line)
            it.key = container + "$eof"
            items.append(it)
            break
        while toks[i].text == "#":
            pre_ann += toks[i].ann
            j = i + 1
            if toks[j].text == "!":
                j += 1
            e = match_close(toks, j)
            attrs.append("".join(t.text for t in toks[i:e + 1]))
            i = e + 1
            if i >= len(toks):
                break
        if i >= len(toks):
            break
        s = i
        if pre_ann:
            toks[s].ann = pre_ann + toks[s].ann
        j = i
        while toks[j].text in ("pub", "unsafe", "extern", "default", "async") or toks[j].kind == "lit" or (
                toks[j].text == "const" and toks[j + 1].text in ("fn", "unsafe")):
            if toks[j].text == "pub" and toks[j + 1].text == "(":
                j = match_close(toks, j + 1) + 1
            else:
                j += 1
        kw = toks[j].text
        if kw == "crate":
            kw = "use"
        name = toks[j + 1].text if j + 1 < len(toks) else ""
        # end of the item: first ';' or matching '}' at depth 0
        k, end = j, None
        while k < len(toks):
            t = toks[k].text
            if toks[k].kind == "op" and t in ("(", "["):
                k = match_close(toks, k) + 1
                continue
            if toks[k].kind == "op" and t == "{":
                end = match_close(toks, k)
                brace = k
                if kw in ("const", "static", "use", "type") or (kw == "macro"):
                    k = end + 1
                    continue
                break
            if toks[k].kind == "op" and t == ";":
                end, brace = k, None
                break
            k += 1
        if end is None:
            raise LexError("item without end at line %d" % toks[s].line)
        if kw == "struct" and brace is None:
            pass
        body = toks[s:end + 1]
        it = Item(kw, name, body, attrs, toks[s].line)
        if kw in ("impl", "trait"):
            it.head = toks[s:brace]
            hd = [t.text for t in toks[j:brace]]
            it.name = "".join(x if x not in ("for", "impl", "trait", "where", "mut") else " " + x + " " for x in hd).strip()
            it.name = re.sub(r"\s+", " ", it.name).replace("impl <", "impl<")
            it.key = it.name
            it.subs = parse_items(toks[brace + 1:end], it.name + "::")
            it.close = toks[end]
            it.open = toks[brace]
        elif kw == "fn":
            it.head = toks[s:brace if brace is not None else end]
            it.body = toks[brace:end + 1] if brace is not None else None
            it.key = container + name
        else:
            it.key = container + kw + " " + name
            if kw == "use":
                it.key = container + norm(body)
        items.append(it)
        i = end + 1
    return items
