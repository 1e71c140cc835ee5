#!/usr/bin/env python3
"""Mechanical extraction of /repo's source into one annotated Verus file.

contracts/<m>.rs is the source of module m as it was when the contracts were written, with the
contracts in /*@ ... @*/ comments. On every run the annotations are carried over, token by token,
to the *current* text of /repo/src/<m>.rs; all executable tokens come from /repo. A fixed list of
rewrite rules (RULES below, each stated in DESIGN.md) then maps the few constructs that the
verifier does not accept."""
import sys, os, json, re, difflib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import *
import inline

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CLAXON_REPO", "/repo")
MODULES = os.environ.get("VX_MODULES", "error input crc subframe frame metadata lib").split()
SPECS = ["base", "bits", "crcspec", "audio", "framespec", "meta", "top"]

FN_ANN = re.compile(r"^\s*(requires|ensures|decreases|invariant|recommends|no_unwind|opens_invariants|returns)\b")

# ------------------------------------------------------------------ dropping what is not verified
DROP_IMPLS = [r"^impl PartialEq for Error$", r"^impl ?fmt::Display for Error$", r"^impl ?error::Error for Error$"]

def cfg_of(attrs):
    """True: keep, False: drop."""
    for a in attrs:
        if a in ("#[test]", "#[cfg(test)]", "#[cfg(fuzzing)]", "#[cfg(kani)]", "#[cfg(verif)]"):
            return False
    return True

def strip_stmt_cfg(toks):
    """Inside bodies: removes statements under #[cfg(fuzzing)], strips all other attributes."""
    out, i = [], 0
    while i < len(toks):
        if toks[i].text == "#" and i + 1 < len(toks) and toks[i + 1].text == "[":
            e = match_close(toks, i + 1)
            a = "".join(t.text for t in toks[i:e + 1])
            i0, i = i, e + 1
            if a == "#[cfg(fuzzing)]":
                while toks[i].text not in (";", "{"):
                    if toks[i].text in ("(", "["):
                        i = match_close(toks, i)
                    i += 1
                if toks[i].text == "{":
                    i = match_close(toks, i)
                i += 1
            if toks[i0].ann and i < len(toks):
                toks[i].ann = toks[i0].ann + toks[i].ann
            continue
        out.append(toks[i])
        i += 1
    return out

# ------------------------------------------------------------------ carrying annotations
class Carry:
    def __init__(self):
        self.changed = False      # tokens differ from the baseline
        self.lost = []            # annotations without a place
        self.moved = 0            # annotations placed by neighbourhood only
        self.renames = {}

LOOPKW = ("while", "for", "loop")

def loop_braces(toks):
    """Indices of the opening brace of each loop body, in order."""
    res = []
    for i, t in enumerate(toks):
        if t.kind == "id" and t.text in LOOPKW and not (t.text == "for" and i + 1 < len(toks) and toks[i + 1].text == "<"):
            j = i + 1
            while j < len(toks) and toks[j].text != "{":
                if toks[j].text in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            if j < len(toks):
                res.append(j)
    return res

def loop_kinds(toks):
    """What kind of loop each one is: keyword, and the iteration idiom of its header."""
    res = []
    for b in loop_braces(toks):
        i = b - 1
        while toks[i].text not in LOOPKW:
            i -= 1
        h = [t.text for t in toks[i:b]]
        res.append((h[0],) + tuple(x for x in h if x in ("..", "...", "..=", "iter", "iter_mut", "zip", "rev", "enumerate", "chunks", "windows", "step_by", "let", "split_at_mut")))
    return res

def find_renames(a, b):
    """Identifiers consistently renamed from a to b."""
    sm = difflib.SequenceMatcher(a=[t.text for t in a], b=[t.text for t in b], autojunk=False)
    cand, bad = {}, set()
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == "replace":
            # align by the non-identifier structure
            if i2 - i1 == j2 - j1:
                for x, y in zip(a[i1:i2], b[j1:j2]):
                    if x.kind == "id" and y.kind == "id" and x.text != y.text:
                        if cand.setdefault(x.text, y.text) != y.text:
                            bad.add(x.text)
    bt = {t.text for t in b}
    at = {t.text for t in a}
    return {x: y for x, y in cand.items() if x not in bad and x not in bt and y not in at}

IDRX = re.compile(r"\b[A-Za-z_][A-Za-z0-9_]*\b")

def carry(base, cur):
    """Annotations of the token list `base` onto a copy of the token list `cur`."""
    c = Carry()
    cur = [t.copy() for t in cur]
    for t in cur:
        t.ann = []
    at, bt = [t.text for t in base], [t.text for t in cur]
    if at == bt:
        for x, y in zip(base, cur):
            y.ann = [(s, l, x) for s, l in x.ann]
        return cur, c
    c.changed = True
    ren = find_renames(base, cur)
    c.renames = ren
    at = [ren.get(t.text, t.text) if t.kind == "id" else t.text for t in base]
    sm = difflib.SequenceMatcher(a=at, b=bt, autojunk=False)
    mp = {}
    for i, j, n in sm.get_matching_blocks():
        for k in range(n):
            mp[i + k] = j + k
    lb_a, lb_b = loop_braces(base), loop_braces(cur)
    same_loops = len(lb_a) == len(lb_b)
    if loop_kinds(base) != loop_kinds(cur):
        # restructured: loop annotations may not fit any more
        c.moved += 1
    def body_brace(ts):
        for k, t in enumerate(ts):
            if t.text in ("(", "["):
                pass
        k = 0
        while k < len(ts):
            if ts[k].text in ("(", "["):
                k = match_close(ts, k)
            elif ts[k].text == "{":
                return k
            k += 1
        return None
    fb_a, fb_b = body_brace(base), body_brace(cur)
    def ren_text(s):
        return IDRX.sub(lambda m: ren.get(m.group(0), m.group(0)), s)
    for i, t in enumerate(base):
        for s, l in t.ann:
            ann = (ren_text(s), l, t)
            place = None
            if i == fb_a:
                place = fb_b
            elif i in lb_a:
                if same_loops:
                    place = lb_b[lb_a.index(i)]
                elif i in mp and mp[i] in lb_b:
                    place = mp[i]
                if place is None:
                    c.lost.append(s)
                    continue
            elif i in mp:
                place = mp[i]
                # a proof belongs after the statement before it: if its predecessor is matched
                # and something was inserted in between, stay directly behind the predecessor
                # unless that is not a statement boundary
            else:
                # nearest matched predecessor that ends a statement
                p = i - 1
                while p >= 0 and p not in mp:
                    p -= 1
                q = mp[p] + 1 if p >= 0 else 1
                while q < len(cur) and cur[q - 1].text not in (";", "{", "}"):
                    if cur[q].text in ("(", "[", "{"):
                        q = match_close(cur, q)
                    q += 1
                place = q if q < len(cur) else None
                c.moved += 1
            if place is None:
                c.lost.append(s)
            else:
                cur[place].ann.append(ann)
    return cur, c

# ------------------------------------------------------------------ rewrite rules
def T(text, like=None, sp=False):
    k = "id" if re.match(r"[A-Za-z_]", text) else ("num" if text[0].isdigit() else "op")
    return Tok(k, text, like.line if like else 0, False, sp)

def toks_of(text, like):
    r = lex(text)
    for t in r:
        t.line, t.nl = like.line, False
    return r

def split_args(toks):
    """Splits a token list at commas of depth 0."""
    res, cur, i = [], [], 0
    while i < len(toks):
        if toks[i].text in OPEN:
            e = match_close(toks, i)
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if toks[i].text == ",":
            res.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    if cur:
        res.append(cur)
    return res

def split_types(toks):
    """split_args for lists of types: angle brackets nest too."""
    res, cur, d = [], [], 0
    for t in toks:
        d += (t.text in OPEN or t.text == "<") - (t.text in CLOSE or t.text == ">") - 2 * (t.text == ">>")
        if t.text == "," and d == 0:
            res.append(cur)
            cur = []
        else:
            cur.append(t)
    return res + ([cur] if cur else [])

def move_ann(src, dst):
    if src.ann:
        dst.ann = src.ann + dst.ann
        src.ann = []

def postfix_start(toks, i):
    """Start of the postfix expression ending at index i (inclusive)."""
    j = i
    while True:
        t = toks[j]
        if t.text in (")", "]", "}"):
            depth, k = 0, j
            while True:
                if toks[k].text in CLOSE:
                    depth += 1
                elif toks[k].text in OPEN:
                    depth -= 1
                    if depth == 0:
                        break
                k -= 1
            j = k
            if j > 0 and (toks[j - 1].kind == "id" and toks[j - 1].text not in ("return", "in", "if", "match", "while", "let", "else", "mut", "as") or toks[j - 1].text in (")", "]", "?")):
                j -= 1
                continue
            if j > 0 and toks[j - 1].text == "!" and toks[j - 2].kind == "id":
                j -= 2
                continue
        elif t.text == "?":
            j -= 1
            continue
        if t.text == ">" :
            # turbofish ::<..>
            k, depth = j, 0
            while True:
                if toks[k].text == ">":
                    depth += 1
                elif toks[k].text == "<":
                    depth -= 1
                    if depth == 0:
                        break
                k -= 1
            j = k
        if j > 0 and toks[j - 1].text in (".", "::"):
            j -= 2
            continue
        return j

class Ctx:
    def __init__(self):
        self.loop_no = 0
        self.used = set()
        self.names = 0
        self.module = ""
        self.vecs = set()
        self.budget = False    # the contract declares vx_budget: allocations are bounded by it

def rw_try(toks, ctx):
    """try!(e) and e? become the match that try! stands for."""
    changed = True
    while changed:
        changed = False
        for i in range(len(toks) - 2):
            if toks[i].text == "try" and toks[i + 1].text == "!":
                e = match_close(toks, i + 2)
                inner = toks[i + 3:e]
                new = toks_of("(match", toks[i]) + inner + toks_of("{ Ok(vx_ok) => vx_ok, Err(vx_err) => return Err(From::from(vx_err)) })", toks[i])
                move_ann(toks[i], new[0])
                new[0].nl, new[0].sp = toks[i].nl, toks[i].sp
                toks = toks[:i] + new + toks[e + 1:]
                changed = True
                ctx.used.add("try")
                break
            if toks[i + 1].text == "?" and i + 2 < len(toks) and toks[i + 2].text != "Sized":
                s = postfix_start(toks, i)
                inner = toks[s:i + 1]
                new = toks_of("(match", toks[s]) + inner + toks_of("{ Ok(vx_ok) => vx_ok, Err(vx_err) => return Err(From::from(vx_err)) })", toks[i])
                move_ann(toks[s], new[0])
                new[0].nl, new[0].sp = toks[s].nl, toks[s].sp
                toks = toks[:s] + new + toks[i + 2:]
                changed = True
                ctx.used.add("try")
                break
    return toks

def budgeted(fn, first, n, like, ctx):
    """An allocation that is counted against the function's ghost budget."""
    ctx.names += 1
    k = ctx.names
    return (toks_of("({ let vx_n%d: usize =" % k, like) + n + toks_of("; let vx_v%d = %s" % (k, fn), like) + first
            + toks_of("vx_n%d, Ghost(vx_spent), Ghost(vx_budget)); proof { vx_spent = vx_spent + vx_cost(vx_v%d, vx_n%d as int); } vx_v%d })" % (k, k, k, k), like))

# ways to allocate that the budget does not count
ALLOCS = set("reserve reserve_exact try_reserve try_reserve_exact resize resize_with extend extend_from_slice to_vec to_owned to_string into_owned clone collect repeat format insert_str push_str append into_boxed_slice from_utf8_lossy".split())

def rw_macros(toks, ctx):
    i = 0
    out = []
    while i < len(toks):
        t = toks[i]
        if t.kind == "id" and i + 2 < len(toks) and toks[i + 1].text == "!" and toks[i + 2].text in ("(", "["):
            e = match_close(toks, i + 2)
            args = split_args(toks[i + 3:e])
            new = None
            if t.text in ("panic", "unreachable", "unimplemented", "todo"):
                doc = any(a[0].strip() == "documented" for a in t.ann)
                t.ann = [a for a in t.ann if a[0].strip() != "documented"]
                new = toks_of("vx_documented_panic()" if doc else "vx_unreachable()", t)
                ctx.used.add("panic")
            elif t.text in ("assert", "debug_assert"):
                doc = any(a[0].strip() == "documented" for a in t.ann)
                t.ann = [a for a in t.ann if a[0].strip() != "documented"]
                if doc:
                    new = toks_of("if !(", t) + args[0] + toks_of(") { vx_documented_panic() }", t)
                else:
                    new = toks_of("vx_assert(", t) + rw_macros(args[0], ctx) + toks_of(")", t)
                ctx.used.add("assert")
            elif t.text in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
                op = "==" if t.text.endswith("eq") else "!="
                new = toks_of("vx_assert((", t) + args[0] + toks_of(") " + op + " (", t) + args[1] + toks_of("))", t)
                ctx.used.add("assert")
            elif t.text == "vec":
                inner = toks[i + 3:e]
                semi = None
                k = 0
                while k < len(inner):
                    if inner[k].text in OPEN:
                        k = match_close(inner, k)
                    elif inner[k].text == ";":
                        semi = k
                    k += 1
                if semi is not None:
                    if ctx.budget:
                        new = budgeted("vx_vec_in(", inner[:semi] + toks_of(",", t), inner[semi + 1:], t, ctx)
                    else:
                        new = toks_of("vx_vec(", t) + inner[:semi] + toks_of(",", t) + inner[semi + 1:] + toks_of(")", t)
                    ctx.used.add("vec")
            if new is not None:
                move_ann(t, new[0])
                new[0].nl, new[0].sp = t.nl, t.sp
                out += new
                i = e + 1
                continue
        out.append(t)
        i += 1
    return out

def vec_names(toks):
    """Names bound to a Vec: `X: Vec<`, `X: &mut Vec<`, `let mut X = vec![` / `Vec::..` / vx_vec(."""
    out = set()
    for i, t in enumerate(toks):
        if t.kind != "id":
            continue
        txt = [x.text for x in toks[i + 1:i + 5]] + [""] * 4
        if txt[0] == ":" and "Vec" in ([txt[1]] if txt[1] != "&" else txt[2:4]):
            out.add(t.text)
        if txt[0] == "=" and toks[i - 1].text in ("let", "mut") and (txt[1:3] == ["vec", "!"] or txt[1] in ("Vec", "vx_vec", "vx_with_capacity")):
            out.add(t.text)
    return out

def rw_vecrange(toks, ctx):
    """&mut V[A..B] for a Vec V becomes &mut V.as_mut_slice()[A..B]."""
    out = []
    for i, t in enumerate(toks):
        out.append(t)
        if t.kind == "id" and t.text in ctx.vecs and i >= 2 and toks[i - 1].text == "mut" and toks[i - 2].text == "&" and toks[i + 1].text == "[":
            e = match_close(toks, i + 1)
            d, rng = 0, False
            for x in toks[i + 2:e]:
                d += (x.text in OPEN) - (x.text in CLOSE)
                rng = rng or (d == 0 and x.text in ("..", "..="))
            if rng:
                out += toks_of(".as_mut_slice()", t)
                ctx.used.add("vec-range")
    return out

INTS = set("u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split())

def rw_paths(toks, ctx):
    """io::Error::new(..), Vec::with_capacity(..), unsafe blocks, get_unchecked, num::Wrapping."""
    out, i = [], 0
    def seq(k, *texts):
        return all(k + d < len(toks) and toks[k + d].text == x for d, x in enumerate(texts))
    while i < len(toks):
        t = toks[i]
        if seq(i, "io", "::", "Error", "::", "new"):
            n = T("vx_io_error", t)
            n.nl, n.sp = t.nl, t.sp
            move_ann(t, n)
            out.append(n)
            i += 5
            ctx.used.add("io_error")
            continue
        if t.text in ("u16", "u32") and seq(i + 1, "::") and i + 3 < len(toks) and toks[i + 2].text in ("from_be_bytes", "from_le_bytes") and toks[i + 3].text == "(":
            n = T("vx_%s_%s" % (t.text, toks[i + 2].text[5:7]), t)
            n.nl, n.sp = t.nl, t.sp
            move_ann(t, n)
            out.append(n)
            i += 3
            ctx.used.add("from-bytes")
            continue
        if t.text in ("std", "core") and seq(i + 1, "::") and i + 4 < len(toks) and toks[i + 2].text in INTS and toks[i + 3].text == "::" and toks[i + 4].text in ("MAX", "MIN"):
            # the legacy modules of constants
            n = T(toks[i + 2].text, t)
            n.nl, n.sp = t.nl, t.sp
            move_ann(t, n)
            out.append(n)
            i += 3
            ctx.used.add("int-const")
            continue
        if seq(i, "File", "::", "open") or seq(i, "fs", "::", "File", "::", "open"):
            n = T("vx_file_open", t)
            n.nl, n.sp = t.nl, t.sp
            move_ann(t, n)
            out.append(n)
            i += 3 if t.text == "File" else 5
            ctx.used.add("file-open")
            continue
        if seq(i, "Vec", "::", "with_capacity"):
            if ctx.budget and i + 3 < len(toks) and toks[i + 3].text == "(":
                x = match_close(toks, i + 3)
                new = budgeted("vx_with_capacity_in(", [], rw_paths(toks[i + 4:x], ctx), t, ctx)
                new[0].nl, new[0].sp = t.nl, t.sp
                move_ann(t, new[0])
                out += new
                i = x + 1
            else:
                n = T("vx_with_capacity", t)
                n.nl, n.sp = t.nl, t.sp
                move_ann(t, n)
                out.append(n)
                i += 3
            ctx.used.add("with_capacity")
            continue
        if seq(i, "unsafe", "{"):
            move_ann(t, toks[i + 1])
            toks[i + 1].nl = t.nl
            toks[i + 1].sp = True
            ctx.used.add("unsafe")
            i += 1
            continue
        if t.text == "." and seq(i + 1, "get_unchecked", "("):
            e = match_close(toks, i + 2)
            # a leading deref is dropped: *x.get_unchecked(i) -> x[i]
            s = postfix_start(out, len(out) - 1)
            if s > 0 and out[s - 1].text == "*":
                move_ann(out[s - 1], out[s])
                del out[s - 1]
                out += [T("[", t)] + rw_paths(toks[i + 3:e], ctx) + [T("]", t)]
            else:
                out.insert(s, T("(", t))
                out.insert(s + 1, T("&", t))
                out += [T("[", t)] + rw_paths(toks[i + 3:e], ctx) + [T("]", t), T(")", t)]
            ctx.used.add("get_unchecked")
            i = e + 1
            continue
        if seq(i, "<", "[", "u8", "]", ">") and out and out[-1].text == "AsRef":
            pass
        out.append(t)
        i += 1
    return out

def closure(toks):
    """(pattern tokens, body tokens) of |pat| body."""
    assert toks[0].text == "|"
    k = 1
    while toks[k].text != "|":
        if toks[k].text in OPEN:
            k = match_close(toks, k)
        k += 1
    return toks[1:k], toks[k + 1:]

def method_chain(toks, i):
    """toks[i] is '.' : list of (name, args, index after) following calls."""
    res = []
    while i < len(toks) and toks[i].text == ".":
        name = toks[i + 1].text
        j = i + 2
        turbo = None
        if j < len(toks) and toks[j].text == "::":
            d, k = 0, j + 1
            while True:
                if toks[k].text == "<":
                    d += 1
                elif toks[k].text == ">":
                    d -= 1
                    if d == 0:
                        break
                k += 1
            turbo = toks[j + 2:k]
            j = k + 1
        if j >= len(toks) or toks[j].text != "(":
            break
        e = match_close(toks, j)
        res.append((name, toks[j + 1:e], e + 1, turbo, toks[i].ann + toks[i + 1].ann))
        i = e + 1
    return res

def rw_iter(toks, ctx):
    """A.iter().zip(B).map(|(&c, &s)| E).sum::<T>()  and  ....fold(INIT, |a, x| F)  and
    A.iter().position(|&x| P), A.iter().any(|&x| P) become counting loops with the closure's body
    inlined; annotations before .sum/.fold/.position/.any are the loop's invariants."""
    i = 0
    while i < len(toks):
        if toks[i].text == "." and i + 1 < len(toks) and toks[i + 1].text == "iter" and i > 0:
            ch = method_chain(toks, i)
            names = [c[0] for c in ch]
            kind = None
            for pat in (["iter", "zip", "map", "sum"], ["iter", "zip", "map", "fold"], ["iter", "map", "sum"],
                        ["iter", "position"], ["iter", "any"], ["iter", "all"], ["iter", "zip", "fold"]):
                if names[:len(pat)] == pat:
                    kind = pat
                    break
            if kind:
                s = postfix_start(toks, i - 1)
                A = toks[s:i]
                end = ch[len(kind) - 1][2]
                anns = []
                for c in ch[:len(kind)]:
                    anns += c[4]
                ctx.names += 1
                n = ctx.names
                like = toks[s]
                inv = [a for a in anns]
                def blk(x):
                    return toks_of(x, like)
                a, b, k, acc = "vx_a%d" % n, "vx_b%d" % n, "vx_k%d" % n, "vx_acc%d" % n
                new = blk("{ let %s = &" % a) + A + blk(";")
                cond = "%s < %s.len()" % (k, a)
                elems = "let vx_x%d = %s[%s];" % (n, a, k)
                if "zip" in kind:
                    z = ch[1][1]
                    zc = method_chain(z, next((q for q in range(len(z)) if z[q].text == "." and z[q + 1].text == "iter"), len(z)))
                    if zc and zc[0][0] == "iter" and zc[0][2] == len(z):
                        q = next(q for q in range(len(z)) if z[q].text == "." and z[q + 1].text == "iter")
                        z = [T("&", like)] + z[:q]
                    new += blk("let %s = " % b) + z + blk(";")
                    cond += " && %s < %s.len()" % (k, b)
                    elems = "let vx_x%d = (&%s[%s], &%s[%s]);" % (n, a, k, b, k)
                    elems = ("let vx_x%d = &%s[%s]; let vx_y%d = &%s[%s];" % (n, a, k, n, b, k))
                new += blk("let mut %s: usize = 0;" % k)
                step = blk("%s = %s + 1;" % (k, k))
                def bind(pat, zipped):
                    """let statements binding a closure pattern to the current element(s)."""
                    if zipped:
                        if pat[0].text == "(":
                            p = split_args(pat[1:-1])
                        else:
                            return blk("let ") + pat + blk(" = (vx_x%d, vx_y%d);" % (n, n))
                        r = []
                        for q, v in zip(p, ("vx_x%d" % n, "vx_y%d" % n)):
                            if q[0].text == "&":
                                r += blk("let ") + q[1:] + blk(" = *%s;" % v)
                            else:
                                r += blk("let ") + q + blk(" = %s;" % v)
                        return r
                    if pat[0].text == "&":
                        return blk("let ") + pat[1:] + blk(" = %s[%s];" % (a, k))
                    return blk("let ") + pat + blk(" = &%s[%s];" % (a, k))
                zipped = "zip" in kind
                el = blk(elems) if zipped else []
                if kind[-1] in ("sum", "fold"):
                    if kind[-1] == "sum":
                        ty = ch[len(kind) - 1][3]
                        ty = norm(ty) if ty else "i64"
                        init = blk("let mut %s: %s = 0;" % (acc, ty))
                    else:
                        fa = split_args(ch[len(kind) - 1][1])
                        # the closure has a comma in its parameters
                        lead = fa[0]
                        clos = []
                        for x in fa[1:]:
                            clos += ([T(",", like)] if clos else []) + x
                        fpat, fbody = closure(clos)
                        p2 = split_args(fpat)
                        init = blk("let mut %s = " % acc) + lead + blk(";")
                    if "map" in kind:
                        mpat, mbody = closure(ch[kind.index("map")][1])
                        mb = bind(mpat, zipped)
                        val = blk("{") + mb + mbody + blk("}")
                    elif zipped:
                        val = blk("(vx_x%d, vx_y%d)" % (n, n))
                    else:
                        val = blk("&%s[%s]" % (a, k))
                    if kind[-1] == "sum":
                        upd = blk("let vx_v%d: %s = " % (n, ty)) + val + blk("; %s = %s + vx_v%d;" % (acc, acc, n))
                    else:
                        upd = (blk("let ") + p2[1] + blk(" = ") + val + blk("; let ") + p2[0] + blk(" = %s; %s = " % (acc, acc)) + fbody + blk(";"))
                    res = blk("%s }" % acc)
                    head = init + blk("while %s" % cond)
                else:
                    clos = ch[len(kind) - 1][1]
                    mpat, mbody = closure(clos)
                    if kind[-1] == "position":
                        init = blk("let mut %s: Option<usize> = None;" % acc)
                        upd = bind(mpat, False) + blk("if ") + mbody + blk("{ %s = Some(%s); break; }" % (acc, k))
                        head = init + blk("while %s" % cond)
                    elif kind[-1] == "any":
                        init = blk("let mut %s: bool = false;" % acc)
                        upd = bind(mpat, False) + blk("if ") + mbody + blk("{ %s = true; break; }" % acc)
                        head = init + blk("while %s" % cond)
                    else:
                        # all(P) is !any(!P): the same loop and invariants
                        init = blk("let mut %s: bool = false;" % acc)
                        upd = bind(mpat, False) + blk("if !(") + mbody + blk(") { %s = true; break; }" % acc)
                        head = init + blk("while %s" % cond)
                    res = blk(("!%s }" if kind[-1] == "all" else "%s }") % acc)
                ob = T("{", like)
                ren = {"VX_ACC": acc, "VX_A": a, "VX_B": b, "VX_K": k}
                pre, inside, post = [], [], []
                for x in inv:
                    txt = x[0]
                    for r, v in ren.items():
                        txt = txt.replace(r, v)
                    y = (txt,) + tuple(x[1:])
                    if FN_ANN.match(txt):
                        pre.append(y)
                    elif txt.strip().startswith("after"):
                        post.append((txt.strip()[5:],) + tuple(x[1:]))
                    else:
                        inside.append(y)
                if not any("decreases" in x[0] for x in pre):
                    pre.append(("decreases %s.len() - %s," % (a, k), like.line, like))
                ob.ann = pre
                upd[0].ann = inside + upd[0].ann
                body = [ob] + el + upd + step + blk("}")
                res[0].ann = post
                new += head + body + res
                move_ann(toks[s], new[0])
                new[0].nl, new[0].sp = like.nl, like.sp
                ctx.used.add("iter-" + kind[-1])
                toks = toks[:s] + new + toks[end:]
                i = s + 1
                continue
        i += 1
    return toks

def rw_rev(toks, ctx):
    """for X in SLICE.iter_mut().rev() { .. *X = E .. }  becomes an index loop counting down;
    for X in (0..N as T).rev() likewise."""
    i = 0
    while i < len(toks):
        if toks[i].kind == "id" and toks[i].text == "for" and toks[i + 1].text != "<":
            j = i + 1
            while toks[j].text != "in":
                j += 1
            k = j + 1
            while toks[k].text != "{":
                if toks[k].text in ("(", "["):
                    k = match_close(toks, k)
                k += 1
            ex = toks[j + 1:k]
            e = match_close(toks, k)
            pat = toks[i + 1:j]
            txt = "".join(t.text for t in ex)
            if txt.endswith(".iter_mut().rev()") and len(pat) == 1:
                ctx.names += 1
                n = ctx.names
                like = toks[i]
                sl = ex[:-8]
                body = toks[k + 1:e]
                # *X -> slice[idx]
                nb, q = [], 0
                while q < len(body):
                    if body[q].text == "*" and q + 1 < len(body) and body[q + 1].text == pat[0].text:
                        rep = toks_of("vx_s%d[vx_i%d]" % (n, n), body[q])
                        rep[0].nl = body[q].nl
                        rep[0].sp = True
                        move_ann(body[q], rep[0])
                        nb += rep
                        q += 2
                        continue
                    nb.append(body[q])
                    q += 1
                new = (toks_of("{ let vx_s%d = &mut " % n, like) + sl + toks_of("; let mut vx_i%d: usize = vx_s%d.len(); while vx_i%d > 0" % (n, n, n), like)
                       + [toks[k]] + toks_of("vx_i%d = vx_i%d - 1;" % (n, n), like) + nb + [toks[e]] + toks_of("}", like))
                toks[k].ann = [(a[0].replace("VX_S", "vx_s%d" % n).replace("VX_I", "vx_i%d" % n),) + tuple(a[1:]) for a in toks[k].ann]
                if not any("decreases" in a[0] for a in toks[k].ann):
                    toks[k].ann.append(("decreases vx_i%d," % n, like.line, like))
                for t in nb:
                    t.ann = [(a[0].replace("VX_S", "vx_s%d" % n).replace("VX_I", "vx_i%d" % n),) + tuple(a[1:]) for a in t.ann]
                toks[e].ann = [(a[0].replace("VX_S", "vx_s%d" % n).replace("VX_I", "vx_i%d" % n),) + tuple(a[1:]) for a in toks[e].ann]
                move_ann(toks[i], new[0])
                new[0].nl = new[0].sp = True
                ctx.used.add("rev-iter_mut")
                toks = toks[:i] + new + toks[e + 1:]
            elif len(ex) > 4 and ex[0].text == "(" and "".join(t.text for t in ex[-4:]) == ".rev()" and match_close(ex, 0) == len(ex) - 5 and len(pat) == 1:
                # for I in (LO..HI).rev()
                inner = ex[1:len(ex) - 5]
                d, cut = 0, None
                for q, t in enumerate(inner):
                    if t.text in "([{":
                        d += 1
                    elif t.text in ")]}":
                        d -= 1
                    elif t.text == ".." and d == 0:
                        cut = q
                if cut:
                    ctx.names += 1
                    n = ctx.names
                    like = toks[i]
                    def ren(a):
                        return (a[0].replace("VX_LO", "vx_s%d" % n).replace("VX_I", "vx_i%d" % n),) + tuple(a[1:])
                    body = toks[k + 1:e]
                    new = (toks_of("{ let vx_s%d =" % n, like) + inner[:cut] + toks_of("; let mut vx_i%d =" % n, like) + inner[cut + 1:]
                           + toks_of("; while vx_i%d > vx_s%d" % (n, n), like) + [toks[k]]
                           + toks_of("vx_i%d = vx_i%d - 1; let %s = vx_i%d;" % (n, n, pat[0].text, n), like) + body + [toks[e]] + toks_of("}", like))
                    toks[k].ann = [ren(a) for a in toks[k].ann]
                    if not any("decreases" in a[0] for a in toks[k].ann):
                        toks[k].ann.append(("decreases vx_i%d - vx_s%d," % (n, n), like.line, like))
                    for t in body:
                        t.ann = [ren(a) for a in t.ann]
                    toks[e].ann = [ren(a) for a in toks[e].ann]
                    move_ann(toks[i], new[0])
                    new[0].nl = new[0].sp = True
                    ctx.used.add("rev-range")
                    toks = toks[:i] + new + toks[e + 1:]
        i += 1
    return toks

def unary_at(toks, q):
    """The operator at index q is a prefix operator."""
    if q == 0:
        return True
    t = toks[q - 1]
    if t.kind in ("id", "num", "lit"):
        return t.text in ("return", "in", "if", "match", "while", "else", "=", "as", "mut")
    return t.text not in (")", "]", "?")

def avoid(ann, name):
    """Rename variables bound in an annotation that has VX_I apart from VX_I's new name."""
    if "VX_I" in ann and re.search(r"\|[^|]*\b%s\s*:" % re.escape(name), ann):
        return re.sub(r"\b%s\b" % re.escape(name), "vx_q_" + name, ann)
    return ann

def rw_for(toks, ctx):
    """for X in SLICE / SLICE.iter() / SLICE.iter_mut(), also zipped with a second slice or with
    enumerate(), becomes a loop over an index; *X becomes SLICE[index]. VX_I in the annotations is
    the index. Loops over ranges stay (VX_I is their variable)."""
    i = 0
    while i < len(toks):
        if not (toks[i].kind == "id" and toks[i].text == "for" and toks[i + 1].text != "<"):
            i += 1
            continue
        j = i + 1
        while toks[j].text != "in":
            if toks[j].text in OPEN:
                j = match_close(toks, j)
            j += 1
        k = j + 1
        while toks[k].text != "{":
            if toks[k].text in ("(", "["):
                k = match_close(toks, k)
            k += 1
        pat, ex = toks[i + 1:j], toks[j + 1:k]
        e = match_close(toks, k)
        def sub_ann(lo, hi, name):
            for t in toks[lo:hi]:
                t.ann = [(re.sub(r"\bVX_I\b", name, avoid(a[0], name)),) + tuple(a[1:]) for a in t.ann]
        d, rng = 0, False
        for t in ex:
            if t.text in OPEN:
                d += 1
            elif t.text in CLOSE:
                d -= 1
            elif t.text in ("..", "..=") and d == 0:
                rng = True
        if rng:
            if len(pat) == 1:
                if pat[0].text == "_":
                    ctx.names += 1
                    pat[0].text, pat[0].kind = "vx_u%d" % ctx.names, "id"
                sub_ann(k, e + 1, pat[0].text)
            i += 1
            continue
        like = toks[i]
        def source(x):
            """(slice tokens, mutable) of an iterated expression."""
            mut = False
            txt = [t.text for t in x]
            if txt[-4:] == [".", "iter_mut", "(", ")"]:
                x, mut = x[:-4], True
            elif txt[-4:] == [".", "iter", "(", ")"]:
                x = x[:-4]
            if x and x[0].text == "&":
                x = x[1:]
                if x and x[0].text == "mut":
                    x, mut = x[1:], True
            return x, mut
        enum = False
        txt = [t.text for t in ex]
        if txt[-4:] == [".", "enumerate", "(", ")"]:
            ex, enum = ex[:-4], True
        srcs = None
        ch = None
        for q in range(len(ex)):
            if ex[q].text == "." and q + 1 < len(ex) and ex[q + 1].text == "zip":
                ch = q
        if ch is not None and ex[-1].text == ")":
            srcs = [source(ex[:ch]), source(ex[ch + 3:-1])]
        elif ch is None:
            srcs = [source(ex)]
        def simple(x):
            return bool(x) and all((t.kind == "id" and t.text not in ("unsafe",)) if n % 2 == 0 else t.text == "." for n, t in enumerate(x)) and len(x) % 2 == 1
        def indexed(x):
            return len(x) > 2 and x[0].kind == "id" and x[1].text == "[" and match_close(x, 1) == len(x) - 1
        if srcs is None or not all(simple(x) or indexed(x) for x, m in srcs):
            i += 1
            continue
        # patterns
        pats = [pat]
        if enum or len(srcs) == 2:
            if pat[0].text != "(":
                i += 1
                continue
            pats = split_args(pat[1:-1])
            if enum and len(srcs) == 2:
                pats = [pats[0]] + split_args(pats[1][1:-1])
        counter = pats.pop(0) if enum else None
        if len(pats) != len(srcs):
            i += 1
            continue
        ctx.names += 1
        n = ctx.names
        idx = "vx_i%d" % n
        body = toks[k + 1:e]
        lets = []
        pre = []
        names = []
        for m, (x, mut) in enumerate(srcs):
            assigned = any(body[q].text == "*" and q + 2 < len(body) and body[q + 1].text == pats[m][-1].text and re.match(r"^([-+*/%|&^]|<<|>>)?=$", body[q + 2].text)
                           and unary_at(body, q) for q in range(len(body)))
            if simple(x):
                names.append("".join(t.text for t in x))
            else:
                nm = "vx_s%d_%d" % (n, m)
                pre += toks_of("let %s = &%s" % (nm, "mut " if mut or assigned else ""), like) + x + toks_of(";", like)
                names.append(nm)
            srcs[m] = (x, mut or assigned)
        if any(t.text == "continue" for t in body):
            raise LexError("continue in a rewritten loop")
        nb = body
        for m, p in enumerate(pats):
            el = "%s[%s]" % (names[m], idx)
            if p[0].text == "&":
                lets += toks_of("let ", like) + p[1:] + toks_of(" = %s;" % el, like)
                continue
            if len(p) != 1:
                raise LexError("pattern")
            v = p[0].text
            if v == "_":
                continue
            out, q = [], 0
            while q < len(nb):
                t = nb[q]
                rep = None
                if t.text == "*" and q + 1 < len(nb) and nb[q + 1].text == v and unary_at(nb, q):
                    rep, adv = toks_of(el, t), 2
                elif t.kind == "id" and t.text == v and not (q > 0 and nb[q - 1].text == "."):
                    rep, adv = toks_of(el if q + 1 < len(nb) and nb[q + 1].text == "." else ("(&%s%s)" % ("mut " if srcs[m][1] else "", el)), t), 1
                if rep is None:
                    out.append(t)
                    q += 1
                    continue
                rep[0].nl, rep[0].sp = t.nl, True
                move_ann(t, rep[0])
                out += rep
                q += adv
            nb = out
        if counter is not None:
            lets = toks_of("let ", like) + counter + toks_of(" = %s;" % idx, like) + lets
        cond = " && ".join("%s < %s.len()" % (idx, nm) for nm in names)
        sub_ann(k, e + 1, idx)
        for t in nb:
            t.ann = [(re.sub(r"\bVX_I\b", idx, a[0]),) + tuple(a[1:]) for a in t.ann]
        if not any("decreases" in a[0] for a in toks[k].ann):
            toks[k].ann.append(("decreases %s.len() - %s," % (names[0], idx), like.line, like))
        inc = toks_of("%s = %s + 1;" % (idx, idx), like)
        if nb and nb[-1].text not in (";", "}"):
            inc = toks_of(";", like) + inc
        inc[0].ann = toks[e].ann
        toks[e].ann = []
        head = toks_of("{", like) + pre + toks_of("let mut %s: usize = 0; while %s" % (idx, cond), like)
        new = head + [toks[k]] + lets + nb + inc + [toks[e]] + toks_of("}", like)
        move_ann(toks[i], new[0])
        new[0].nl = new[0].sp = True
        ctx.used.add("for-slice")
        toks = toks[:i] + new + toks[e + 1:]
        i += len(head)
    return toks

def destructure(pat, e, like):
    """let statements that bind the irrefutable pattern `pat` to the place `e`."""
    if pat[0].text == "&" and pat[1].text != "mut":
        return destructure(pat[1:], "(*%s)" % e, like)
    if pat[0].text == "(":
        assert match_close(pat, 0) == len(pat) - 1
        r = []
        for k, p in enumerate(split_args(pat[1:-1])):
            r += destructure(p, "%s.%d" % (e, k), like)
        return r
    if pat[0].text == "_":
        return []
    if pat[0].text == "ref" and len(pat) == 2:
        return toks_of("let %s = &%s;" % (pat[1].text, e), like)
    assert len(pat) == 1 and pat[0].kind == "id"
    return toks_of("let %s = %s;" % (pat[0].text, e), like)

def rw_optmap(toks, ctx):
    """E.map(|pat| body) for an Option E (for anything else the result does not type-check) becomes
    match E { Some(pat) => Some(body), None => None }."""
    i = 0
    while i < len(toks) - 3:
        if toks[i].text == "." and toks[i + 1].text == "map" and toks[i + 2].text == "(" and toks[i + 3].text == "|":
            e = match_close(toks, i + 2)
            pat, body = closure(toks[i + 3:e])
            s = postfix_start(toks, i - 1)
            like = toks[s]
            ctx.names += 1
            v = "vx_m%d" % ctx.names
            anns = [(a[0].replace("VX_M", v),) + tuple(a[1:]) for a in toks[i].ann + toks[i + 1].ann]
            toks[i].ann, toks[i + 1].ann = [], []
            binds = destructure(pat, v, like)
            ob = toks_of("{", like)
            some = binds + toks_of("Some(", like) + body + toks_of(")", like)
            some[0].ann = anns + some[0].ann
            new = toks_of("match ", like) + toks[s:i] + toks_of("{ Some(%s) => {" % v, like) + some + toks_of("}, None => None }", like)
            move_ann(toks[s], new[0])
            new[0].nl, new[0].sp = like.nl, True
            ctx.used.add("option-map")
            toks = toks[:s] + new + toks[e + 1:]
            i = s + 1
            continue
        i += 1
    return toks

def rw_reflet(toks, ctx):
    """let (ref a, b) = E; becomes let vx_t = &(E); let a = &(*vx_t).0; let b = (*vx_t).1;"""
    i = 0
    while i < len(toks) - 3:
        if toks[i].text == "let" and toks[i + 1].text in ("(", "&"):
            k = i + 1 + (toks[i + 1].text == "&")
            if toks[k].text == "(":
                c = match_close(toks, k)
                if toks[c + 1].text == "=" and any(t.text == "ref" for t in toks[k:c]):
                    j = c + 2
                    while toks[j].text != ";":
                        j = match_close(toks, j) + 1 if toks[j].text in OPEN else j + 1
                    ctx.names += 1
                    v = "vx_t%d" % ctx.names
                    like = toks[i]
                    if toks[i + 1].text == "&":
                        new = toks_of("let %s = " % v, like) + toks[c + 2:j] + [toks[j]]
                    else:
                        new = toks_of("let %s = &" % v, like) + toks[c + 2:j] + [toks[j]]
                    b = destructure(toks[k:c + 1], "(*%s)" % v, like)
                    move_ann(toks[i], new[0])
                    new[0].nl = like.nl
                    ctx.used.add("ref-let")
                    toks = toks[:i] + new + b + toks[j + 1:]
                    i = i + len(new)
                    continue
        i += 1
    return toks

def rw_strslice(toks, ctx):
    """&E[..n], &E[n..], &E[..] (also as receiver of a method) become calls of VxSlice, which has
    implementations for str, String, slices and vectors."""
    if ctx.module not in ("metadata", "lib"):
        return toks
    i = 1
    while i < len(toks):
        if toks[i].text == "[" and (toks[i - 1].kind == "id" and toks[i - 1].text not in ("return", "in", "let", "match", "if") or toks[i - 1].text in (")", "]")):
            e = match_close(toks, i)
            d, q = 0, None
            for k in range(i + 1, e):
                d += (toks[k].text in OPEN) - (toks[k].text in CLOSE)
                if d == 0 and toks[k].text == "..":
                    q = k
            if q is not None:
                s = postfix_start(toks, i - 1)
                amp = s > 0 and toks[s - 1].text == "&"
                if amp or (e + 1 < len(toks) and toks[e + 1].text == "."):
                    lo, hi = toks[i + 1:q], toks[q + 1:e]
                    like = toks[i]
                    if lo and hi:
                        new = toks_of(".vx_sub(", like) + lo + toks_of(", ", like) + hi + toks_of(")", like)
                    elif lo:
                        new = toks_of(".vx_from(", like) + lo + toks_of(")", like)
                    elif hi:
                        new = toks_of(".vx_to(", like) + hi + toks_of(")", like)
                    else:
                        new = toks_of(".vx_all()", like)
                    head = toks[s:i]
                    if amp:
                        move_ann(toks[s - 1], head[0])
                        head[0].nl, head[0].sp = toks[s - 1].nl, True
                        s -= 1
                    toks = toks[:s] + head + new + toks[e + 1:]
                    i = s + len(head)
                    ctx.used.add("str-slice")
                    continue
        i += 1
    return toks

RULES = [rw_vecrange, rw_iter, rw_optmap, rw_reflet, rw_strslice, rw_rev, rw_for, rw_try, rw_macros, rw_paths]

# ------------------------------------------------------------------ emission
class Emitter:
    def __init__(self):
        self.lines = []
        self.cur = ""
        self.map = []          # per output line: (file, line, item key, is_annotation)
        self.here = None
    def nl(self):
        self.lines.append(self.cur)
        self.map.append(self.here)
        self.cur = ""
    def raw(self, text, where):
        """Annotation or generated text, on lines of its own."""
        if self.cur.strip():
            self.nl()
        else:
            self.cur = ""
        for k, l in enumerate(text.split("\n")):
            self.cur = l
            self.here = (where[0], where[1] + k, where[2], True)
            self.nl()
    def tok(self, t, where):
        if t.nl and self.cur.strip():
            self.nl()
            self.cur = "    "
        elif (t.sp or not self.cur) and self.cur:
            self.cur += " "
        elif self.cur and t.kind in ("id", "num", "lit", "life") and re.search(r"[A-Za-z0-9_]$", self.cur):
            self.cur += " "
        self.here = where
        self.cur += t.text

def emit_toks(em, toks, mod, key):
    for t in toks:
        for a in t.ann:
            em.raw(a[0], ("contracts/%s.rs" % mod, a[1], key))
        em.tok(t, ("src/%s.rs" % mod, t.line, key, False))

def vis_pub(toks):
    """Makes an item public."""
    if toks[0].text == "pub":
        if toks[1].text == "(":
            e = match_close(toks, 1)
            return [toks[0]] + toks[e + 1:]
        return toks
    p = T("pub", toks[0])
    p.nl = True
    move_ann(toks[0], p)
    toks[0].nl, toks[0].sp = False, True
    return [p] + toks

def pub_fields(toks):
    """pub on every field of a struct."""
    out, i = [], 0
    while i < len(toks) and toks[i].text not in ("{", "("):
        out.append(toks[i])
        i += 1
    if i >= len(toks):
        return toks
    e = match_close(toks, i)
    out.append(toks[i])
    for f in split_types(toks[i + 1:e]):
        if not f:
            continue
        k = 0
        while f[k].text == "#":
            k = match_close(f, k + 1) + 1
        f = f[k:]
        out += vis_pub(f) + [T(",", f[0])]
    return out + toks[e:]

def name_result(head):
    """fn f(..) -> T where ..   becomes   fn f(..) -> (r: T) where .."""
    depth = 0
    for i, t in enumerate(head):
        if t.text == "->" and depth == 0:
            j = i + 1
            while j < len(head) and head[j].text != "where":
                j += 1
            like = head[i]
            ty = head[i + 1:j]
            if "".join(x.text for x in ty) == "!":
                return head
            return head[:i + 1] + toks_of(" (r:", like) + ty + toks_of(")", like) + head[j:]
        if t.text in OPEN:
            depth += 1
        elif t.text in CLOSE:
            depth -= 1
    return head

DROPLINES = set()            # (module, line) of proof steps that no longer compile: left out
NOINLINE = set()             # functions whose calls of new helpers are left alone (the result did not compile)

class Extraction:
    def __init__(self):
        self.inlined = {}    # function -> new helpers put back into it
        self.fns = {}        # key -> dict(module, changed, lost, moved, new, contract)
        self.overrides = []  # provided methods of Iterator that are overridden: not verified
        self.missing = []    # baseline functions with a contract that are gone
        self.rules = set()
        self.text = ""
        self.map = []
        self.dropped = []
        self.trusted = []

def flat(items, pre=""):
    for it in items:
        yield it
        for s in flat(it.subs):
            yield s

def item_type(it):
    """Self::Item in an Iterator impl becomes the type."""
    ty = None
    for s in it.subs:
        if s.kind == "type":
            eq = next((i for i, t in enumerate(s.toks) if t.text == "="), None)
            if eq is not None and s.name == "Item":
                ty = s.toks[eq + 1:-1]
    for s in it.subs:
        if s.kind == "fn" and ty:
            q = 0
            while q < len(s.head) - 2:
                if s.head[q].text == "Self" and s.head[q + 1].text == "::" and s.head[q + 2].text == "Item":
                    s.head[q:q + 3] = [t.copy() for t in ty]
                q += 1

def prep(items, drop=None):
    """Drops items that are not extracted."""
    out = []
    for it in items:
        if not cfg_of(it.attrs) or it.kind in ("use", "mod", "extern", "macro_rules"):
            if drop is not None and it.kind not in ("use", "mod"):
                drop.append(it.key)
            continue
        if it.kind == "impl" and any(re.match(p, it.name) for p in DROP_IMPLS):
            if drop is not None:
                drop.append(it.key)
            continue
        if it.kind in ("impl", "trait"):
            it.subs = prep(it.subs, drop)
            item_type(it)
        elif it.body is not None:
            it.body = strip_stmt_cfg(it.body)
        out.append(it)
    return out

def inner_attr_strip(toks):
    """Drops a leading #![...] and doc attributes at module level."""
    out, i = [], 0
    while i < len(toks):
        if toks[i].text == "#" and i + 1 < len(toks) and toks[i + 1].text == "!":
            i = match_close(toks, i + 2) + 1
            continue
        out.append(toks[i])
        i += 1
    return out

def sim(a, b):
    return difflib.SequenceMatcher(a=[t.text for t in a], b=[t.text for t in b], autojunk=False).ratio()

def drop_lines(mod, a, lost):
    """The annotation without the lines in DROPLINES: a line that is a clause or statement of its own
    alone, otherwise the whole annotation. Only proof steps: the contract of the function stays."""
    ls = a[0].split("\n")
    bad = [k for k in range(len(ls)) if (mod, a[1] + k) in DROPLINES]
    if not bad:
        return a
    lost.append(a[0])
    if all((mod, -(a[1] + k)) not in DROPLINES for k in bad) and len(ls) > 1:
        out = list(ls)
        for k in bad:
            x = re.sub(r"//.*", "", ls[k]).strip()
            if x[-1:] not in (",", ";") or any(x.count(o) != x.count(c) for o, c in ("()", "[]", "{}")):
                return None
            out[k] = ""
        return ("\n".join(out),) + tuple(a[1:])
    return None

def process_fn(ex, em, mod, it, base, in_trait_impl, container):
    toks = it.head + (it.body or [])
    info = dict(module=mod, changed=False, lost=[], moved=0, new=base is None, contract=False, line=it.line,
                has_body=it.body is not None, renames={})
    key = it.key
    if base is not None:
        bt = base.head + (base.body or [])
        new, c = carry(bt, toks)
        info.update(changed=c.changed, lost=c.lost, moved=c.moved, renames=c.renames)
        if any(m == mod for m, _ in DROPLINES):
            for t in new[len(it.head) + 1:]:
                t.ann = [a for a in (drop_lines(mod, a, info["lost"]) for a in t.ann) if a is not None]
        info["contract"] = any(FN_ANN.match(a[0]) and "nsures" in a[0] for t in new for a in t.ann) or any(
            "ensures" in a[0] for t in new for a in t.ann)
    else:
        new = [t.copy() for t in toks]
        for t in new:
            t.ann = []
    if any("let ghost vx_budget" in a[0] for t in new[len(it.head):] for a in t.ann):
        for x in sorted({t.text for t in new[len(it.head):] if t.kind == "id" and (t.text in ALLOCS or t.text == "Box")}):
            info["lost"].append("vx_budget: memory that %s may take is not counted" % x)
    skip = any(a[0].strip().startswith("external_body") for t in new for a in t.ann)
    nh = len(it.head)
    head, body = new[:nh], new[nh:]
    ctx = Ctx()
    ctx.module = mod
    ctx.vecs = vec_names(head + (body or []))
    ctx.budget = any("let ghost vx_budget" in a[0] for t in (body or []) for a in t.ann)
    try:
        if body:
            for r in RULES:
                body = r(body, ctx)
    except (LexError, IndexError, AssertionError, StopIteration) as e:
        info["lost"].append("rewrite failed: %r" % (e,))
    for k in range(len(head) - 3):
        if head[k].text == "AsRef" and head[k + 1].text == "<":
            e = next((j for j in range(k + 2, min(k + 7, len(head))) if head[j].text == ">"), None)
            if e is not None and head[e - 1].text == "Path":
                head[k].text = "VxPath"
                del head[k + 1:e + 1]
                ctx.used.add("file-open")
                break
    head = name_result(head)
    for k in range(len(head) - 1):
        if head[k].text == "_" and head[k + 1].text == ":":
            head[k].text, head[k].kind = "vx_p%d" % k, "id"
            ctx.used.add("unnamed-parameter")
    if not in_trait_impl:
        head = vis_pub(head)
    ex.rules |= ctx.used
    for t in head[:1]:
        t.nl = True
    if body:
        body[0].nl = True
    full = mod + "::" + key
    ex.fns[full] = info
    if body and full in ex.degrade:
        if full in ex.bare:
            for t in head + body[:1]:
                t.ann = []
        em.raw("#[verifier::external_body]", ("generated", 0, full))
        emit_toks(em, head, mod, full)
        emit_toks(em, body[:1], mod, full)
        em.raw("unimplemented!() }", ("generated", 0, full))
        info["degraded"] = True
        return
    if body and full in ex.help:
        if not any("loop_isolation" in a[0] for t in head for a in t.ann):
            em.raw("#[verifier::loop_isolation(false)]", ("generated", 0, full))
        q = 0
        while len(body) > 1 and q < len(body[1].ann) and body[1].ann[q][0].strip().startswith("hide("):
            q += 1
        body[1].ann.insert(q, ("broadcast use super::help::group_help;", 0, body[1]))
    if body and not skip:
        # a solver process of its own: what another function does to the solver's state cannot matter
        em.raw("#[verifier::spinoff_prover]", ("generated", 0, full))
    emit_toks(em, head, mod, full)
    if body and full in ex.probe:
        emit_toks(em, body[:1], mod, full)
        em.raw("proof { assert(false); } super::vx_unreachable() }", ("probe", 0, full))
        em.nl()
        return
    emit_toks(em, body, mod, full)
    if not body:
        if base is not None and base.body is None:
            for a in base.toks[-1].ann:
                em.raw(a[0], ("contracts/%s.rs" % mod, a[1], mod + "::" + key))
                info["contract"] = True
        em.cur += ";"
    em.nl()

def find_base(bmap, used, it, cands, curkeys):
    """Baseline item of a function: by key, else (renamed) the most similar unmatched one."""
    if it.key in bmap:
        return bmap[it.key]
    best, br = None, 0.0
    for b in cands:
        if b.kind == "fn" and b.key not in curkeys and b.key not in used:
            r = sim((b.body or b.head), (it.body or it.head))
            if r > br:
                best, br = b, r
    if best is not None and br > 0.75:
        used.add(best.key)
        return best
    return None

def extract(repo=REPO, verif=VERIF, baseline_only=False, degrade=(), bare=(), probe=(), help=()):
    """degrade: functions emitted with their contract only (assumed); bare: without even that;
    probe: functions with `assert(false)` put at their start; help: functions proved with the extra
    lemmas of contracts/spec/help.rs and with loops that see what is known before them."""
    ex = Extraction()
    ex.help = set(help)
    ex.degrade, ex.bare, ex.probe = set(degrade) | set(bare), set(bare), set(probe)
    em = Emitter()
    def lit(s):
        em.raw(s, ("generated", 0, None))
    lit("#![feature(allocator_api)]\n#![feature(sized_hierarchy)]\n#![feature(const_destruct)]\n#![allow(unused)]\n"
        "use vstd::prelude::*;\nuse vstd::arithmetic::power2::*;\nuse std::{io, cmp, str, slice, mem, string, path, fs, result};\nuse std::marker::PointeeSized;\nverus! {")
    if os.path.exists(os.path.join(verif, "contracts/spec/audio.rs")):
        lit("pub mod num { use super::*; pub use super::audio::Wrapping; }")
    for s in SPECS + (["help"] if help else []):
        pth = os.path.join(verif, "contracts/spec/%s.rs" % s)
        if not os.path.exists(pth):
            continue
        lit("pub use %s::*;\npub mod %s {\nuse super::*;" % (s, s))
        em.raw(open(pth).read(), ("contracts/spec/%s.rs" % s, 1, "spec::" + s))
        lit("}")
    words = set()
    for mod in MODULES:
        cpath = os.path.join(verif, "contracts/%s.rs" % mod)
        if not os.path.exists(cpath):
            continue
        bsrc = open(cpath).read()
        csrc = open(os.path.join(repo, "src/%s.rs" % mod)).read()
        base = prep(parse_items(inner_attr_strip(lex(bsrc, annotated=True))))
        if baseline_only:
            cur = prep(parse_items(inner_attr_strip(lex(re.sub(r"/\*@.*?@\*/", "", bsrc, flags=re.S)))))
        else:
            cur = prep(parse_items(inner_attr_strip(lex(csrc))), ex.dropped)
        m = mod if mod != "lib" else "lib_"
        lit("pub use %s::*;\npub mod %s {\nuse super::*;" % (m, m))
        bmap = {i.key: i for i in flat(base) if i.kind != "impl"}
        bimpl = {}
        for i in base:
            if i.kind in ("impl", "trait"):
                bimpl.setdefault(i.key, []).append(i)
        curkeys = {i.key for i in flat(cur)}
        used = set()
        if not baseline_only:
            cands = [y for y in flat(base)]
            tent = set()
            names = [i.key for i in flat(cur) if i.kind == "fn" and find_base(bmap, tent, i, cands, curkeys) is None]
            if names:
                did, gone = inline.put_back(cur, lambda i: i.key in names, lambda k: mod + "::" + k in NOINLINE)
                for k, hs in did.items():
                    ex.inlined[mod + "::" + k] = sorted(set(mod + "::" + x for x in hs))
                    ex.rules.add("inline-helper")
                cur = [i for i in cur if i.key not in gone]
                for i in cur:
                    i.subs = [x for x in i.subs if x.key not in gone]
                curkeys -= set(gone)
        for it in flat(cur):
            if it.kind in ("fn", "const", "static"):
                words.update(t.text for t in it.toks)
        for it in cur:
            if it.kind == "eof":
                continue
            b = bmap.get(it.key)
            if it.kind in ("impl", "trait"):
                bi = bimpl.get(it.key, [])
                ann = []
                for x in bi:
                    for t in x.head + [x.open]:
                        ann += t.ann
                isiter = re.match(r"^impl(<.*?>)? ?(Iterator|ExactSizeIterator) for ", it.name)
                if isiter and "ExactSize" in it.name:
                    ex.dropped.append(it.key)
                    continue
                head = [t.copy() for t in it.head]
                for t in head:
                    t.ann = []
                for a in ann:
                    if a[0].strip().startswith("attr"):
                        em.raw(a[0].strip()[4:], ("contracts/%s.rs" % mod, a[1], it.key))
                if isiter:
                    k = next(i for i, t in enumerate(head) if t.text == "Iterator")
                    del head[k:k + 2]
                    ex.rules.add("iterator-impl")
                if it.kind == "trait":
                    head = vis_pub(head)
                    if not any(t.text == ":" for t in head):
                        sup = [a[0].strip()[6:] for a in ann if a[0].strip().startswith("super ")]
                        ann = [a for a in ann if not a[0].strip().startswith("super ")]
                        head += toks_of(": " + (sup or ["Sized"])[0], head[-1])
                        ex.rules.add("sized-trait")
                head[0].nl = True
                emit_toks(em, head, mod, None)
                em.cur += " {"
                em.nl()
                for a in ann:
                    if not a[0].strip().startswith("attr"):
                        em.raw(a[0], ("contracts/%s.rs" % mod, a[1], mod + "::" + it.key))
                trait_impl = (" for " in it.name and not isiter) or it.kind == "trait"
                for s in it.subs:
                    if s.kind == "eof":
                        continue
                    if s.kind == "fn":
                        if isiter and s.name not in ("next", "size_hint"):
                            ex.dropped.append(s.key)
                            ex.overrides.append(mod + "::" + s.key)
                            continue
                        cands = [y for x in bi for y in x.subs]
                        bs = find_base(bmap, used, s, cands, curkeys)
                        process_fn(ex, em, mod, s, bs, trait_impl, it)
                    elif s.kind == "type" and isiter:
                        continue
                    else:
                        emit_toks(em, s.toks, mod, s.key)
                        em.nl()
                if isiter and not any(s.kind == "fn" and s.name == "size_hint" for s in it.subs):
                    # the provided method of std's trait
                    em.raw("pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == 0, r.1.is_none() { (0, None) }", ("generated", 0, None))
                em.raw("}", ("generated", 0, None))
                continue
            if it.kind == "fn":
                bs = find_base(bmap, used, it, base, curkeys)
                process_fn(ex, em, mod, it, bs, False, None)
                continue
            toks = [t.copy() for t in it.toks]
            anns = []
            if b is not None:
                for t in b.toks:
                    anns += t.ann
            for t in toks:
                t.ann = []
            for a in anns:
                em.raw(a[0], ("contracts/%s.rs" % mod, a[1], it.key))
            if it.kind in ("struct", "enum"):
                d = [a for a in it.attrs if a.startswith("#[derive(")]
                keep = []
                for a in d:
                    keep += [x for x in re.split(r"[(),\]]+", a)[1:] if x in ("Clone", "Copy")]
                if keep:
                    em.raw("#[derive(%s)]" % ", ".join(keep), ("generated", 0, None))
            toks = vis_pub(toks)
            if it.kind == "struct":
                toks = pub_fields(toks)
            elif it.kind == "enum":
                # attributes on variants
                q = 0
                while q < len(toks):
                    if toks[q].text == "#" and toks[q + 1].text == "[":
                        e = match_close(toks, q + 1)
                        del toks[q:e + 1]
                        continue
                    q += 1
            elif it.kind in ("const", "static"):
                toks = rw_macros(toks, Ctx())
            toks[0].nl = True
            emit_toks(em, toks, mod, mod + "::" + it.key)
            em.nl()
        for i in flat(base):
            if i.kind == "fn" and i.key not in curkeys and i.key not in used and mod + "::" + i.key not in ex.fns:
                if any(t.ann for t in i.toks):
                    ex.missing.append(mod + "::" + i.key)
        lit("}")
    # contracts of std functions that this source uses and the pinned one does not
    pth, more, line = os.path.join(verif, "contracts/spec/std.rs"), False, 0
    lit("pub use stdspec::*;\npub mod stdspec {\nuse super::*;")
    for l in open(pth).read().splitlines():
        line += 1
        if l.startswith("//@ "):
            more = bool(words & set(l[4:].split()))
        elif more:
            em.raw(l, ("contracts/spec/std.rs", line, "spec::std"))
    lit("}")
    lit("} // verus!\nfn main() {}")
    em.nl()
    ex.text = "\n".join(em.lines) + "\n"
    ex.map = em.map
    return ex

if __name__ == "__main__":
    ex = extract()
    out = sys.argv[1] if len(sys.argv) > 1 else "/tmp/claxon_verus.rs"
    open(out, "w").write(ex.text)
    for k, f in ex.fns.items():
        if f["changed"] or f["new"] or f["lost"]:
            print(k, {a: b for a, b in f.items() if a in ("changed", "new", "lost", "moved", "renames")})
    print("missing", ex.missing)
    print("rules", sorted(ex.rules))
    print("dropped", len(ex.dropped), [d for d in ex.dropped if "verify" not in d])
