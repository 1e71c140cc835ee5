"""Inlining of helper functions that the annotated baseline does not have: a helper that was extracted
from a function with a contract is put back at its call sites (a block with the parameters bound to
the arguments), so that the caller's contract decides it. What cannot be inlined stays a call of a
function without contract. The result is only a better proof attempt: a function that fails after
inlining counts as undecided, not as failed."""
from rustlex import lex, match_close, Tok, OPEN, CLOSE, LexError

def L(text, like, sp=True):
    r = lex(text)
    for t in r:
        t.line, t.nl, t.sp = like.line, False, True
    return r

class No(Exception):
    pass

def split_commas(toks):
    res, cur, d = [], [], 0
    for t in toks:
        if t.text in OPEN or t.text == "<" and t.kind == "op":
            d += 1
        elif t.text in CLOSE or t.text == ">":
            d -= 1
        if t.text == "," and d == 0:
            res.append(cur)
            cur = []
        else:
            cur.append(t)
    return res + ([cur] if cur else [])

def split_args(toks):
    res, cur, i = [], [], 0
    while i < len(toks):
        if toks[i].text in OPEN:
            e = match_close(toks, i)
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if toks[i].text == ",":
            res.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    return res + ([cur] if cur else [])

def txt(toks):
    return " ".join(t.text for t in toks)

def head_of(it):
    """(generics, [(name, mut, type)], receiver, return type tokens)"""
    h = it.head
    i = next(k for k, t in enumerate(h) if t.text == "fn") + 2
    gen = []
    if h[i].text == "<":
        d, j = 0, i
        while True:
            d += (h[j].text == "<") - (h[j].text == ">")
            if d == 0:
                break
            j += 1
        for p in split_commas(h[i + 1:j]):
            gen.append(p[0].text)
        i = j + 1
    e = match_close(h, i)
    params, recv = [], None
    for p in split_commas(h[i + 1:e]):
        if not p:
            continue
        s = txt(p)
        if s in ("self", "& self", "& mut self"):
            recv = s
            continue
        if "self" in [t.text for t in p[:3]]:
            raise No("receiver")
        mut = p[0].text == "mut"
        if mut:
            p = p[1:]
        if p[0].kind != "id" or p[1].text != ":":
            raise No("pattern parameter")
        params.append((p[0].text, mut, p[2:]))
    ret = []
    if e + 1 < len(h) and h[e + 1].text == "->":
        k = e + 2
        while k < len(h) and h[k].text != "where":
            ret.append(h[k])
            k += 1
    return gen, params, recv, ret

def statements(b):
    """Splits the tokens between the braces of a block into statements; the last one may be the tail
    expression: list of (tokens, is_tail)."""
    res, i, cur = [], 0, []
    while i < len(b):
        t = b[i]
        if t.text in OPEN and t.kind == "op":
            e = match_close(b, i)
            cur += b[i:e + 1]
            i = e + 1
            if t.text == "{" and cur[0].text in ("if", "match", "while", "for", "loop", "unsafe", "{"):
                nxt = b[i].text if i < len(b) else None
                if nxt not in ("else", ".", "?", "as", ";") and nxt is not None:
                    res.append((cur, False))
                    cur = []
            continue
        cur.append(t)
        i += 1
        if t.text == ";":
            res.append((cur, False))
            cur = []
    if cur:
        res.append((cur, True))
    return res

def has(toks, *texts):
    return any(t.kind in ("id", "op") and t.text in texts for t in toks)

def tries(toks):
    return any(t.text == "?" or (t.text == "try" and k + 1 < len(toks) and toks[k + 1].text == "!") for k, t in enumerate(toks))

def structure(b):
    """Replaces early returns: `if C { ..; return X; } REST` becomes `if C { ..; X } else { REST }`."""
    st = statements(b)
    out = []
    for k, (s, tail) in enumerate(st):
        if not has(s, "return"):
            out += s
            continue
        last = k == len(st) - 1
        n = sum(t.text == "return" for t in s)
        if s[0].text == "return" and last and n == 1:
            e = s[1:]
            if e and e[-1].text == ";":
                e = e[:-1]
            return out + e
        if s[0].text == "if" and not last:
            br = next((q for q, t in enumerate(s) if t.text == "{"), None)
            q = 1
            while s[q].text != "{":
                q = match_close(s, q) + 1 if s[q].text in ("(", "[") else q + 1
            e = match_close(s, q)
            if e != len(s) - 1 or has(s[:q], "return"):
                raise No("return in a branch")
            body = structure_block(s[q + 1:e])
            rest = structure([t for x, _ in st[k + 1:] for t in x])
            like = s[0]
            return out + s[:q + 1] + body + [s[e]] + L("else {", like) + rest + L("}", like)
        if last and s[0].text in ("if", "match"):
            raise No("return in the tail")
        raise No("return")
    return out

def structure_block(b):
    """A block all of whose paths end in return."""
    st = statements(b)
    if not st or st[-1][0][0].text != "return":
        raise No("branch does not return")
    return structure(b)

KEYWORDS = set("let mut ref if else match while for in loop return as fn move true false self unsafe break continue".split())

def bound_names(toks):
    r = set()
    for k, t in enumerate(toks):
        if t.text in ("let", "for"):
            q = k + 1
            while q < len(toks) and toks[q].text not in ("=", "in", ";", ":"):
                if toks[q].kind == "id" and not toks[q].text[0].isupper():
                    r.add(toks[q].text)
                q += 1
        if t.text == "|" or t.text == "=>":
            q = k - 1
            while q >= 0 and toks[q].text not in (",", "{", "|", ";", "}"):
                if toks[q].kind == "id" and not toks[q].text[0].isupper():
                    r.add(toks[q].text)
                q -= 1
    return r - KEYWORDS

class Helper:
    def __init__(self, it, container):
        self.it, self.container = it, container
        self.gen, self.params, self.recv, self.ret = head_of(it)
        self.body = it.body[1:-1]
        self.calls = 0
        if any(t.kind == "life" for t in it.head):
            self.lifetimes = True
        for t in it.body:
            if t.kind == "id" and t.text == it.name:
                raise No("recursive")

def replacement(h, args, caller, ctx):
    """ctx: 'value', 'try' (operand of try!/?), 'tail' (value of the caller). Tokens that replace the call."""
    like = caller.body[0]
    if len(args) != len(h.params):
        raise No("arguments")
    cgen, cparams, crecv, cret = head_of(caller)
    clocals = bound_names(caller.body) | {p[0] for p in cparams}
    pnames = {p[0] for p in h.params}
    hl = bound_names(h.body) | pnames
    for k, t in enumerate(h.body):
        if t.kind == "id" and t.text in clocals and t.text not in hl and not (k and h.body[k - 1].text in (".", "::")):
            if not (k + 1 < len(h.body) and h.body[k + 1].text in (":", "::")):
                raise No("captures " + t.text)
    lets, seen = [], set()
    same = lambda ty: not any(t.text in h.gen or t.kind == "life" or t.text == "impl" for t in ty)
    for (name, mut, ty), a in zip(h.params, args):
        if any(t.kind == "id" and t.text in seen for t in a):
            raise No("argument order")
        if len(a) == 1 and a[0].text == name and not mut:
            continue
        seen.add(name)
        l = a[0] if a else like
        lets += L("let " + ("mut " if mut else "") + name, l)
        if same(ty):
            lets += L(":", l) + [t.copy() for t in ty]
        lets += L("=", l)
        if txt(ty[:2]) == "& mut" and a[0].text != "&":
            lets += L("& mut *", l)
        lets += [t.copy() for t in a] + L(";", l)
    def fresh(b):
        r = [t.copy() for t in b]
        for t in r:
            t.ann = []
        return r
    def parts(b):
        """(statements, value) of a block's content."""
        st = statements(b)
        if st and st[-1][1] and not (st[-1][0][0].text in ("while", "for", "loop") and not h.ret):
            return [x for q, _ in st[:-1] for x in q], st[-1][0]
        return b, []
    INTS = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128")
    def typed(pre, val):
        """An integer whose type its literals do not fix gets the result type."""
        if not val or txt(h.ret) not in INTS or not any(t.kind == "num" for t in val) or txt(val[-2:]) == "as " + txt(h.ret):
            return pre, val
        if not has(val, "if", "match", "{", "<<", "<<=") and any(t.kind == "id" for t in val):
            return pre, val
        n = next_name()
        return pre + L("let %s:" % n, like) + fresh(h.ret) + L("=", like) + val + L(";", like), L(n, like)
    body = fresh(h.body)
    early = has(body, "return") or tries(body)
    if ctx == "tail" and txt(h.ret) == txt(cret):
        pre, val = parts(body)
        return lets + pre, val
    if not early:
        pre, val = parts(body)
        if ctx == "try":
            if not val:
                raise No("no value")
            val = L("try!(", like) + val + L(")", like)
            return lets + pre, val
        return typed(lets + pre, val)
    if ctx == "try":
        hr, cr = txt(h.ret), txt(cret)
        fam = lambda r: "io" if r.startswith("io :: Result") else "own" if r.startswith("Result <") else None
        if fam(hr) is None or fam(cr) is None or (fam(hr) == "own" and fam(cr) == "io"):
            raise No("result type")
        ok, k, b = True, 0, body
        while k < len(b):
            if b[k].text == "return":
                if b[k + 1].text in ("Err", "fmt_err"):
                    if fam(hr) != fam(cr) and b[k + 1].text == "Err":
                        e = match_close(b, k + 2)
                        b = b[:k + 3] + L("From::from(", like) + b[k + 3:e] + L(")", like) + b[e:]
                    elif fam(hr) != fam(cr):
                        raise No("return")
                else:
                    ok = False
            k += 1
        if not ok:
            b = structure(fresh(h.body))
            if has(b, "return"):
                raise No("return")
        pre, t = parts(b)
        if not t:
            raise No("no value")
        if t[0].text == "Ok" and t[1].text == "(" and match_close(t, 1) == len(t) - 1:
            return lets + pre, ([] if txt(t[2:-1]) == "( )" else t[2:-1])
        if not same(h.ret):
            raise No("generic result")
        n = next_name()
        return lets + L("let %s:" % n, like) + fresh(h.ret) + L("= {", like) + b + L("};", like), L("try!(%s)" % n, like)
    if tries(body):
        raise No("error returned to a caller that does not pass it on")
    pre, val = parts(structure(fresh(h.body)))
    return typed(lets + pre, val)

def place(b, lo, hi, pre, val, ctx):
    """The tokens b with [lo, hi) replaced by `pre` and `val`: as statements where the call is a
    statement or the right-hand side of one and no name is captured, otherwise as a block."""
    like = b[lo]
    s = lo
    while b[s - 1].text not in (";", "{", "}") and s > 1:
        s -= 1
    lhs = b[s:lo]
    t = [x.text for x in lhs]
    stmt = (not lhs or (t[-1] in ("=", "+=", "-=", "|=", "^=") and "=>" not in t) or t == ["return"]) and not any(x in ("(", "if", "match", "while", "for") for x in t[:1])
    end = b[hi].text == ";" or (ctx == "tail" and hi == len(b) - 1)
    if stmt and end:
        intro = bound_names(pre)
        pat = set()
        if t[:1] == ["let"]:
            q = 1
            while t[q] not in ("=", ":"):
                pat.add(t[q])
                q += 1
        d, k, rest = 0, hi, []
        while k < len(b):
            d += (b[k].text in OPEN) - (b[k].text in CLOSE)
            if d < 0:
                break
            rest.append(b[k])
            k += 1
        named = {x.text for q, x in enumerate(rest) if x.kind == "id" and not (q and rest[q - 1].text == ".")} | {x.text for x in lhs if x.kind == "id"} - pat
        if not intro & (named - pat):
            if not val and not lhs:
                new = pre
                if b[hi].text == ";":
                    hi += 1
            elif not val:
                new = pre + lhs + L("()", like)
            else:
                new = pre + lhs + val
            if new:
                new[0].nl = True
            if pre and lhs:
                lhs[0].nl = True
            for x in lhs:
                x.ann = []
            return b[:s] + new + b[hi:]
    if not pre and val:
        new = L("(", like) + val + L(")", like)
    else:
        new = L("{", like) + pre + val + L("}", like)
        if b[lo - 1].text not in ("=", ";", "{", "}", "=>", "(", ",", "return"):
            new = L("(", like) + new + L(")", like)
    new[0].nl, new[0].sp = like.nl, True
    return b[:lo] + new + b[hi:]

N = [0]
def next_name():
    N[0] += 1
    return "vx_h%d" % N[0]

def find_calls(toks, h):
    """(start, open paren, name index) of a call of the helper."""
    for k in range(len(toks) - 1):
        if toks[k].kind != "id" or toks[k].text != h.it.name or toks[k + 1].text != "(":
            continue
        p = toks[k - 1].text if k else ""
        if h.recv:
            if p == "." and k >= 2 and toks[k - 2].text == "self" and toks[k - 2].kind == "id" and (k < 3 or toks[k - 3].text not in (".", "*", "&", "mut")):
                return k - 2, k + 1
        elif h.container is not None:
            if p == "::" and k >= 2 and toks[k - 2].text in ("Self", h.container) and (k < 3 or toks[k - 3].text != "::"):
                return k - 2, k + 1
        elif p not in (".", "::", "fn"):
            return k, k + 1
    return None

def type_name(impl):
    """Foo of `impl<R: X> Foo<R>`."""
    t = impl.head
    k = next(i for i, x in enumerate(t) if x.text == "impl") + 1
    if t[k].text == "<":
        d = 0
        while True:
            d += (t[k].text == "<") - (t[k].text == ">")
            k += 1
            if d == 0:
                break
    for q in range(k, len(t) - 1):
        if t[q].text == "for" and t[q + 1].text != "<":
            k = q + 1
            break
    while not (t[k].kind == "id" and t[k].text not in ("mut", "dyn")):
        k += 1
    while t[k + 1].text == "::" if k + 1 < len(t) else False:
        k += 2
    return t[k].text

def put_back(items, is_new, skip=lambda key: False):
    """items: of one module, after prep. is_new(item): not in the baseline. Returns {caller key: [helpers]}
    and the list of helpers that are no longer called (removed)."""
    fns = []                                   # (item, impl or None)
    for it in items:
        if it.kind == "fn" and it.body:
            fns.append((it, None))
        elif it.kind == "impl":
            for s in it.subs:
                if s.kind == "fn" and s.body:
                    fns.append((s, it))
    helpers = []
    for it, impl in fns:
        if is_new(it) and not (impl is not None and " for " in impl.name) and not any(t.text == "unsafe" for t in it.head):
            try:
                helpers.append(Helper(it, type_name(impl) if impl is not None else None))
            except (No, LexError, StopIteration, IndexError):
                pass
    did = {}
    for rnd in range(60):
        again = False
        for it, impl in fns:
            if skip(it.key):
                continue
            for h in helpers:
                if h.it is it or (h.container is not None and (impl is None or type_name(impl) != h.container)):
                    continue
                pos = 0
                while True:
                    b = it.body
                    c = find_calls(b[pos:], h)
                    if c is None:
                        break
                    s, o = c[0] + pos, c[1] + pos
                    e = match_close(b, o)
                    try:
                        args = split_args(b[o + 1:e])
                        ctx, lo, hi = "value", s, e + 1
                        if s >= 3 and b[s - 1].text == "(" and b[s - 2].text == "!" and b[s - 3].text == "try" and b[e + 1].text == ")":
                            ctx, lo, hi = "try", s - 3, e + 2
                        elif b[e + 1].text == "?":
                            ctx, lo, hi = "try", s, e + 2
                        elif e + 2 == len(b) and b[s - 1].text in (";", "{", "}"):
                            ctx = "tail"
                        elif b[s - 1].text == "return" and b[e + 1].text == ";":
                            ctx = "tail"
                        if len(b) > 1500 + len(h.body) * 40:
                            raise No("size")
                        new = replacement(h, args, it, ctx)
                        for t in b[lo:hi]:
                            t.ann = []
                        it.body = place(b, lo, hi, new[0], new[1], ctx)
                        did.setdefault(it.key, []).append(h.it.key)
                        again = True
                        pos = 0
                    except (No, LexError, StopIteration, IndexError):
                        pos = e
        if not again:
            break
    gone = []
    for h in helpers:
        if any(t.text == "pub" for t in h.it.head[:1]) or not any(h.it.key in v for v in did.values()):
            continue
        used = any(t.kind == "id" and t.text == h.it.name for it, impl in fns if it is not h.it and it.key not in gone for t in it.body)
        if not used:
            gone.append(h.it.key)
    return did, gone
