#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property of /repo's current working tree.

1. The annotated Verus text is extracted from /repo's source (extract.py) and verified as a whole;
   the obligations of the functions that make up the property decide.
2. In parallel the replay crate is built against /repo's crate. It searches for a concrete input
   that breaks the property: the replay of a failed obligation, and a test of the trusted base.
Exit 0: held. Exit 1: VIOLATION line. See DESIGN.md for the policy on undecided obligations."""
import sys, os, json, re, subprocess, time, threading, hashlib, shutil, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract
from extract import REPO, MODULES
from rustlex import lex
from props import PROPS, in_prop, UNREACHABLE

VERIF = extract.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/usr/local/bin:/opt/veriftools/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV["CARGO_NET_OFFLINE"] = "true"
T0 = time.time()
GRACE = 60  # once a failing input is known, the verifier gets this long to finish
LIMIT = 780 if TIER == "quick" else 3000

OBLIGATION = re.compile(r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
                        r"arithmetic underflow/overflow|division by zero|bit shift|decreases not satisfied|failed precondition|"
                        r"unable to prove|loop ensures not satisfied|possible|cannot prove|not satisfied|termination", re.I)
SAFETY = re.compile(r"precondition not satisfied|arithmetic underflow/overflow|division by zero|bit shift|decreases not satisfied|termination|possible", re.I)
UNDECIDED = re.compile(r"rlimit|resource limit|timed? ?out|solver", re.I)
IGNORE = re.compile(r"^aborting due to|^\d+ warnings? emitted|recommendation not met|verification results|could not compile")

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Verus:
    """One run of the verifier on the extracted text."""
    def __init__(self, work, name):
        self.work, self.name = work, name

    def run(self, ex, args=("--rlimit", "30", "--smt-option", "timeout=75000"), timeout=240, stop=None):
        f = os.path.join(self.work, self.name + ".rs")
        open(f, "w").write(ex.text)
        cmd = ["verus", f, "--output-json", "--time", "--error-format=json", "--multiple-errors", "0"] + list(args)
        self.cmd = cmd
        t = time.time()
        self.timeout, self.stopped = False, False
        fo, fe = open(f + ".out", "wb+"), open(f + ".err", "wb+")
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, env=ENV, cwd=self.work, start_new_session=True)
        while p.poll() is None:
            time.sleep(0.1)
            d = time.time() - t
            if d > timeout:
                self.timeout = True
            elif stop is not None and d > GRACE and stop():
                self.timeout = self.stopped = True
            if self.timeout:
                os.killpg(p.pid, 9)
                p.wait()
        fo.seek(0), fe.seek(0)
        out, err = fo.read().decode(errors="replace"), fe.read().decode(errors="replace")
        fo.close(), fe.close()
        self.secs = time.time() - t
        self.raw = err
        try:
            self.json = json.loads(out[out.index("{"):])
        except ValueError:
            self.json = {}
        self.errors = []
        for l in err.split("\n"):
            if not l.startswith("{"):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") != "error" or IGNORE.search(d.get("message", "")):
                continue
            lines = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")]
            sec = [s["line_start"] for s in d.get("spans", []) if not s.get("is_primary")]
            self.errors.append(dict(message=d["message"], lines=lines, others=sec, text=d.get("rendered", d["message"])))
        r = self.json.get("verification-results", {})
        self.verified = r.get("verified", 0)
        self.nerr = r.get("errors", 0)
        self.ran = bool(r) and not r.get("encountered-vir-error", False)
        self.fdetail = {}
        for m in self.json.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for fb in m.get("function-breakdown", []):
                self.fdetail[fb["function"]] = fb
        return self

def where(ex, line):
    if 0 < line <= len(ex.map) and ex.map[line - 1]:
        return ex.map[line - 1]
    return None

def fn_of(ex, err):
    """(key, where) of the function whose obligation an error is."""
    cand = []
    for l in err["lines"] + err["others"]:
        w = where(ex, l)
        if w and w[2]:
            cand.append((w[2], w))
    keys = [c for c in cand if c[0] in ex.fns or c[0].startswith("spec::")]
    # A postcondition inherited from a trait: the primary span may lie at the trait's clause, the
    # other at the end of the body. Prefer a function with a body.
    body = [c for c in keys if c[0] in ex.fns and ex.fns[c[0]]["has_body"]]
    prim = [c for c in body if not c[1][3]]
    sel = prim or body or keys or cand
    return sel[0] if sel else (None, None)

def verify(work, stop=None):
    """Extract and verify; functions that no longer compile are degraded to their contract."""
    degrade, bare = set(), set()
    info = dict(rounds=0, gave_up=None)
    v, ex = None, None
    for rnd in range(24):
        try:
            ex = extract.extract(degrade=degrade, bare=bare)
        except Exception as e:
            info["gave_up"] = "extraction failed: %r" % (e,)
            return None, None, degrade, bare, info
        v = Verus(work, "claxon").run(ex, stop=stop)
        info["rounds"] = rnd + 1
        if v.timeout:
            info["gave_up"] = "stopped: a failing input was found" if v.stopped else "verifier timed out"
            break
        hard = [e for e in v.errors if not OBLIGATION.search(e["message"]) and not UNDECIDED.search(e["message"])]
        if v.ran and v.verified > 0 and not hard:
            break
        bad = set()
        for e in hard:
            k, w = fn_of(ex, e)
            if k in ex.fns:
                bad.add(k)
        new = bad - degrade
        # a proof step that no longer compiles is left out
        steps, whole = set(), False
        for e in hard:
            for l in e["lines"]:
                w = where(ex, l)
                x = re.match(r"contracts/(\w+)\.rs$", w[0]) if w and w[3] else None
                if x and w[2] in bad:
                    q = (x.group(1), w[1])
                    if q in extract.DROPLINES:
                        q = (q[0], -q[1])
                    if q not in extract.DROPLINES:
                        steps.add((q, w[2]))
        bad -= {k for _, k in steps}
        new = bad - degrade
        if steps and rnd < 16:
            extract.DROPLINES |= {q for q, _ in steps}
            if not new:
                continue
        tried = (new & set(ex.inlined)) - extract.NOINLINE
        if tried:
            extract.NOINLINE |= tried
            continue
        if new:
            degrade |= new
        elif bad - bare:
            bare |= bad
        else:
            info["gave_up"] = "verifier rejects the text: " + (hard[0]["message"] if hard else v.raw[-300:])
            break
    return v, ex, degrade, bare, info

# ------------------------------------------------------------------ search
WIDTH = dict(u8=1 << 8, i8=1 << 8, u16=1 << 16, i16=1 << 16, u32=1 << 32, i32=1 << 32)
def hints():
    """Literals of the current source that the annotated baseline does not have: the search tries them
    as lengths, values and names. They steer it only; what counts is the comparison with the oracle."""
    nums, words = set(), set()
    for m in MODULES:
        try:
            cur = lex(open(os.path.join(REPO, "src", m + ".rs")).read())
            base = lex(re.sub(r"/\*@.*?@\*/", "", open(os.path.join(VERIF, "contracts", m + ".rs")).read(), flags=re.S))
        except Exception:
            continue
        def lits(ts):
            return collections.Counter((t.kind, t.text) for t in ts if t.kind in ("num", "str", "raw", "char") or t.text in WIDTH)
        for (k, t) in sorted((lits(cur) - lits(base)).keys()):
            if t in WIDTH:                  # a new cast or declaration: the limits of the type
                nums.update((WIDTH[t], WIDTH[t] >> 1))
            elif k == "num":
                x = re.match(r"0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*", t).group(0).replace("_", "")
                try:
                    v = int(x, 0) if x[:2] in ("0x", "0b", "0o") else int(x)
                except ValueError:
                    continue
                if v < 1 << 64:
                    nums.add(v)
                if 0 < v < 64:
                    nums.add(1 << v)
            else:
                x = re.sub(r"^b?r?#*[\"']|[\"']#*$", "", t)
                try:
                    b = x.encode("latin-1").decode("unicode_escape").encode("latin-1") if "\\" in x and "\\u" not in x else x.encode()
                except Exception:
                    b = x.encode()
                if k == "char" and len(b) == 1:
                    nums.add(b[0])
                if 0 < len(b) <= 64:
                    words.add(b)
    a = []
    if nums:
        a += ["--hints", ",".join(str(x) for x in sorted(nums)[:200])]
    if words:
        a += ["--words", ",".join(w.hex() for w in sorted(words)[:60])]
    return a

class Search(threading.Thread):
    def __init__(self, pid, work):
        super().__init__()
        self.pid, self.work = pid, work
        self.found = None
        self.stats = dict(cases=0, nontrivial=0)
        self.error = None
        self.built = False
        self.bin = os.path.join(VERIF, "replay", "target", "release", "replay")
        self.hints = hints()

    def build(self):
        src = os.path.join(VERIF, "replay")
        man = os.path.join(src, "Cargo.toml")
        p = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", man], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=ENV, timeout=600)
        if p.returncode != 0:
            self.error = "replay crate does not build: " + p.stdout.decode(errors="replace")[-1500:]
            return False
        # concurrent checks may rebuild it: keep a private copy
        mine = os.path.join(self.work, "replay")
        shutil.copy2(self.bin, mine)
        self.bin = mine
        self.built = True
        return True

    def search(self, cases, secs, seed):
        out = os.path.join(self.work, "found.json")
        tr = os.path.join(self.work, "trace")
        for f in os.listdir(self.work):
            if f.startswith("trace.") or f == "found.json":
                os.remove(os.path.join(self.work, f))
        cmd = [self.bin, "search", self.pid, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--out", out, "--trace", tr] + self.hints
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            self.error = "search did not end"
            return
        o = p.stdout.decode(errors="replace")
        m = re.search(r"STATS cases=(\d+) nontrivial=(\d+)", o)
        if m:
            self.stats["cases"] += int(m.group(1))
            self.stats["nontrivial"] += int(m.group(2))
        if p.returncode == 1 and os.path.exists(out):
            self.found = json.load(open(out))
        elif p.returncode < 0 or p.returncode in (134, 139):
            # the process died: find the case in the traces by running each again
            for f in sorted(os.listdir(self.work)):
                if not f.startswith("trace."):
                    continue
                s = open(os.path.join(self.work, f)).read().strip()
                if not s:
                    continue
                c = int(s)
                q = subprocess.run([self.bin, "case", self.pid, "--seed", str(seed), "--case", str(c)] + self.hints, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=120)
                if q.returncode < 0 or q.returncode in (134, 139):
                    self.found = dict(property=self.pid, seed=seed, case=c, input="case %d" % c, expected="a value or an error",
                                      actual="the process was killed by signal %d: %s" % (-p.returncode, q.stderr.decode(errors="replace")[-600:]))
                    return
            self.error = "search died with %d, not reproduced" % p.returncode
        elif p.returncode != 0:
            self.error = "search ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:])

    def run(self):
        try:
            if self.build():
                pr = PROPS[self.pid]
                if TIER == "thorough":
                    self.search(pr["deep"], 240, SEED)
                else:
                    self.search(pr["cases"], 12, SEED)
        except Exception as e:
            self.error = repr(e)

def scan_trusted(ex):
    """Everything in the verified text that is assumed rather than proved."""
    res = []
    lines = ex.text.split("\n")
    for i, l in enumerate(lines):
        m = re.search(r"\b(external_body|assume_specification|admit\(\)|assume\(|external_type_specification|axiom|external_fn_specification|external_trait_specification)\b", l)
        if not m or l.strip().startswith("//"):
            continue
        name = None
        for k in range(i, min(i + 12, len(lines))):
            n = re.search(r"\bassume_specification\s*(?:<.*?>)?\s*\[\s*(.*?)\s*\]", lines[k]) or re.search(r"\b(?:fn|struct|trait)\s+(\w+)", lines[k])
            if n:
                name = n.group(1)
                break
        w = ex.map[i]
        res.append("%s %s (%s:%s)" % (m.group(1).rstrip("("), name, w[0] if w else "?", w[1] if w else "?"))
    return sorted(set(res))

def vacuity(ex, keys, work, all_keys):
    """assert(false) at the start of every function in keys must fail: preconditions are satisfiable."""
    probe = extract.extract(probe=set(keys), degrade=set(k for k in all_keys if k not in keys))
    v = Verus(work, "probe").run(probe, ["--rlimit", "20", "--smt-option", "timeout=40000"], timeout=150)
    if not v.ran or v.timeout:
        return None, []
    hit = set()
    for e in v.errors:
        for l in e["lines"] + e["others"]:
            w = where(probe, l)
            if w and w[2]:
                hit.add(w[2])
    return v, [k for k in keys if k not in hit]

TC = "1.98.1-x86_64-unknown-linux-gnu"      # the toolchain that the verifier is built on
def run_extracted(pid, ex, work, s, res):
    """Compiles the very text that was verified (ghost code erased) and runs it, under the crate's name
    and paths, through the property's search: it must do what the oracle says, as the crate must. That
    tests what the extraction does to the source, which the proof takes on trust."""
    d = os.path.join(work, "extracted")
    os.makedirs(d, exist_ok=True)
    here = os.path.join(VERIF, "replay", "extracted")
    lib = os.path.dirname(os.path.realpath(shutil.which("verus", path=ENV["PATH"]) or "/opt/veriftools/verus/verus"))
    if not os.path.exists(os.path.join(lib, "libvstd.rlib")):
        lib = "/opt/veriftools/verus"
    t = ex.text + open(os.path.join(here, "glue.rs")).read()
    open(os.path.join(d, "claxon_x.rs"), "w").write(t)
    opt = ["-C", "opt-level=2", "-C", "overflow-checks=on", "-C", "debug-assertions=on"]
    env = dict(ENV, RUSTUP_TOOLCHAIN=TC, RUSTC_BOOTSTRAP="1")
    deps = ["-L", "dependency=" + d, "-L", "dependency=" + lib]
    steps = [(["verus", "claxon_x.rs", "--no-verify", "--compile", "--crate-type=lib"] + opt, ENV),
             (["rustc", "--crate-name", "claxon", "--crate-type", "lib", "--edition", "2021", os.path.join(here, "facade.rs"), "--extern",
               "claxon_x=libclaxon_x.rlib", "-o", "libclaxon.rlib"] + opt + deps, env),
             (["rustc", "--crate-name", "replay", "--edition", "2021", os.path.join(VERIF, "replay", "src", "main.rs"), "--extern",
               "claxon=libclaxon.rlib", "-o", "replay_x"] + opt + deps, env)]
    try:
        for cmd, e in steps:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=180)
            if p.returncode != 0:
                m = re.search(rb"^error.*$", p.stdout, re.M)
                res["error"] = "the extracted text does not compile on its own: " + (m.group(0) if m else p.stdout[-200:]).decode(errors="replace")
                return
        s.join()
        out = os.path.join(d, "found.json")
        secs = 6 if TIER == "quick" else 90
        cmd = [os.path.join(d, "replay_x"), "search", pid, "--seed", str(SEED), "--cases", str(400000 if TIER == "quick" else 100000000), "--secs", str(secs), "--out", out] + s.hints
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=secs * 3 + 120)
        m = re.search(r"STATS cases=(\d+) nontrivial=(\d+)", p.stdout.decode(errors="replace"))
        if m:
            res["cases"], res["nontrivial"] = int(m.group(1)), int(m.group(2))
        if p.returncode == 1 and os.path.exists(out):
            f = json.load(open(out))
            q = subprocess.run([s.bin, "case", pid, "--seed", str(f["seed"]), "--case", str(f["case"])] + s.hints, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=120)
            if q.returncode == 1:
                s.found = f                     # the code does the same
            elif q.returncode == 0:
                res["differs"] = dict(input=f["input"][:2000], expected=f["expected"][:500], extracted_text=f["actual"][:500])
        elif p.returncode != 0:
            res["error"] = "the extracted text's search ended with %d" % p.returncode
    except Exception as e:
        res["error"] = repr(e)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    pid = sys.argv[1]
    pr = PROPS[pid]
    work = os.path.join(VERIF, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replay_path = os.path.join(work, "violation.json")
    s = Search(pid, work)
    s.start()
    v, ex, degraded, bare, info = verify(work, lambda: s.found is not None)
    failed, undecided, notes = {}, {}, []
    keys, support, weak = [], [], []
    if ex is not None:
        keys = [k for k in ex.fns if in_prop(pid, k) and ex.fns[k]["has_body"]]
        newfns = {k for k, f in ex.fns.items() if f["new"]}
        newnames = {k.rsplit("::", 1)[-1] for k in newfns}
        for k in keys:
            f = ex.fns[k]
            if k in degraded:
                undecided[k] = "no longer accepted by the verifier"
            elif any("vx_budget" in a or "rewrite failed" in a for a in f["lost"]):
                # a lost proof step only weakens what is known; a lost budget weakens what is claimed
                undecided[k] = "annotations lost: %d" % len(f["lost"])
        for k in ex.overrides:
            if in_prop(pid, k):
                notes.append("%s overrides a provided method and is not verified" % k)
        for k in ex.missing:
            if in_prop(pid, k):
                notes.append("function %s is gone" % k)
        support = called(ex, keys)
        if info["gave_up"]:
            for k in keys:
                undecided[k] = info["gave_up"]
        else:
            fl, un = sort_errors(ex, v)
            weak = [k for k in support if k in fl or k in un or k in degraded]
            again = [k for k in list(fl) + list(un) if in_prop(pid, k) or k.startswith("spec::")]
            if again and s.found is None and time.time() - T0 < LIMIT / 2:
                fl, un, helped = second_opinion(work, ex, degraded, bare, fl, un, lambda: s.found is not None)
            for k, es in fl.items():
                if k.startswith("spec::"):
                    notes.append("lemma failed: %s" % es[0][0]["message"])
                    for q in keys:
                        undecided.setdefault(q, "a lemma failed")
                    continue
                if k not in keys:
                    if k in ex.fns and ex.fns[k]["new"]:
                        notes.append("obligation of new function %s failed" % k)
                    continue
                f = ex.fns[k]
                body = function_text(ex, k)
                calls_new = any(re.search(r"\b%s\b" % re.escape(n), body) for n in newnames)
                if pr.get("safety"):
                    es = [x for x in es if SAFETY.search(x[0]["message"])]
                    if not es:
                        undecided[k] = "a functional obligation failed"
                        continue
                calls_new = calls_new or k in ex.inlined
                if f["lost"] or f["moved"] or calls_new or k in degraded or f["new"]:
                    undecided[k] = "obligation failed after the text around its annotations changed: %s" % es[0][0]["message"]
                else:
                    failed[k] = es
            for k, m in un.items():
                if k in keys:
                    undecided.setdefault(k, m)
            # a contract that callers rely on and that is not established: judged by the property it
            # belongs to; here it means that the argument has a hole
            for k in weak:
                notes.append("relies on the contract of %s, which is not discharged" % k)
    # vacuity of the preconditions
    vac, vac_bad = None, []
    same, st = dict(cases=0, nontrivial=0), None
    if ex is not None and not info["gave_up"] and not degraded and not failed and s.found is None and keys:
        st = threading.Thread(target=run_extracted, args=(pid, ex, work, s, same))
        st.start()
    if ex is not None and not info["gave_up"] and not degraded and not failed and not undecided and s.found is None and keys:
        vac, vac_bad = vacuity(ex, keys, work, [k for k in ex.fns if ex.fns[k]['has_body']])
        if vac is None:
            notes.append("vacuity probe did not run")
        vac_bad = [k for k in vac_bad if k not in UNREACHABLE]
        for k in vac_bad:
            undecided.setdefault(k, "the vacuity probe does not fail")
    s.join()
    if st is not None:
        st.join()
        if "differs" in same:
            for k in keys:
                undecided.setdefault(k, "the extracted text does not behave like the code")
    trouble = bool(failed or undecided or notes or info["gave_up"])
    if not s.found and trouble and s.built and TIER != "thorough":
        s.search(pr["deep"], 45, SEED + 1000)
    discharged = [k for k in keys if k not in failed and k not in undecided]
    det = {}
    if v is not None:
        det = v.fdetail
    nver = v.verified if v is not None else 0
    viol = 0
    line = None
    if s.found:
        viol = 1
        d = dict(s.found)
        d["failed_obligations"] = [dict(function=k, message=e["message"], at="%s:%s" % (w[0], w[1]), text=e["text"]) for k, es in failed.items() for e, w in es]
        d["undecided"] = undecided
        d["how_to_replay"] = "cd /verif && cargo build --release --offline --manifest-path replay/Cargo.toml && replay/target/release/replay case %s --seed %s --case %s %s" % (pid, d["seed"], d["case"], " ".join(s.hints))
        json.dump(d, open(replay_path, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, replay_path)
    elif failed:
        viol = 1
        d = dict(property=pid, failed_obligations=[dict(function=k, message=e["message"], at="%s:%s" % (w[0], w[1]), verifier_output=e["text"]) for k, es in failed.items() for e, w in es],
                 undecided=undecided, searched=s.stats, search_error=s.error,
                 how_to_replay="cd /verif && python3 tools/extract.py /tmp/claxon_verus.rs && verus /tmp/claxon_verus.rs")
        json.dump(d, open(replay_path, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay_path)
    smt = (v.json.get("times-ms", {}).get("smt", {}) if v is not None else {})
    ev = dict(property=pid, tier=TIER, seed=SEED, level="proof", violations=viol, wall_s=round(time.time() - T0, 2),
              coverage=dict(
                  obligations=len(keys), discharged=len(discharged),
                  obligations_explained="one per function under contract that the property depends on: all verification conditions of the function (postconditions, callee preconditions, invariants, overflow, bounds, termination)",
                  functions=sorted(discharged), failed=sorted(failed), undecided_bounded_only=undecided,
                  relied_on=[k for k in support if k not in weak], relied_on_not_discharged=weak,
                  notes=notes, whole_text_verified=nver, whole_text_errors=(v.nerr if v is not None else None),
                  checker_cmd="python3 tools/extract.py FILE && verus FILE", back_end="Verus 0.2026.09.13 / Z3",
                  verifier_seconds=round(v.secs, 2) if v is not None else None, smt_ms=smt.get("total"),
                  vacuity_probes=len(keys) if vac is not None else 0, vacuous=vac_bad, unreachable_by_contract=[k for k in keys if k in UNREACHABLE],
                  trusted_base=scan_trusted(ex) if ex is not None else ["extraction failed"],
                  rewrite_rules=sorted(ex.rules) if ex is not None else [], not_extracted=[d for d in ex.dropped if "verify_" not in d] if ex is not None else [],
                  extracted_text_run=dict(what="the verified text, compiled and run through the same search: tests the extraction", **same),
                  bounded_complement=dict(method="search for a failing input with the real crate against an independent decoder", cases=s.stats["cases"], nontrivial=s.stats["nontrivial"], error=s.error)),
              assumptions=["contracts of std items as listed in trusted_base", "the rewrite rules of tools/extract.py preserve meaning (tested by extracted_text_run, not proved)",
                           "Verus and Z3 are sound", "a reader that reports more bytes than the buffer holds is the only misbehaviour of io::Read considered beyond errors and short reads"])
    if trouble:
        ev["level"] = "exploration" if not discharged else "proof"
        ev["coverage"].update(evaluations=s.stats["cases"], distinct_nontrivial=s.stats["nontrivial"], rule="a case is non-trivial if the oracle yields a value", samples=[])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    known(pid, s)
    print("%s: %d of %d functions discharged, %d undecided, %d failed; %d cases searched; %.1f s" % (pid, len(discharged), len(keys), len(undecided), len(failed), s.stats["cases"], time.time() - T0))
    for k, m in list(undecided.items())[:8]:
        print("  undecided (bounded search only): %s: %s" % (k, m))
    for n in notes:
        print("  note: %s" % n)
    for k, es in failed.items():
        for e, w in es[:3]:
            print("  failed obligation: %s: %s at %s:%s" % (k, e["message"], w[0], w[1]))
    if s.error:
        print("  search: %s" % s.error)
    if line:
        print(line)
        return 1
    return 0

def sort_errors(ex, v):
    """Failed and undecided functions of one run."""
    fl, un = {}, {}
    for e in v.errors:
        k, w = fn_of(ex, e)
        if k is None:
            continue
        if UNDECIDED.search(e["message"]):
            un[k] = e["message"]
        elif OBLIGATION.search(e["message"]):
            fl.setdefault(k, []).append((e, w))
    return fl, un

def second_opinion(work, ex, degraded, bare, fl, un, stop):
    """Two more runs, in parallel: one with other solver settings, one in which the functions that
    failed get extra lemmas and loops that see their context. What either run proves is proved;
    what is left is reported as the first of them saw it."""
    keys = [k for k in list(fl) + list(un) if k in ex.fns]
    seed = ["--smt-option", "smt.random_seed=%d" % (SEED + 7), "--smt-option", "timeout=75000"]
    res = {}
    def other():
        v = Verus(work, "claxon2").run(ex, ["--rlimit", "60"] + seed, timeout=200, stop=stop)
        if v.ran and not v.timeout:
            res["other"] = sort_errors(ex, v)
    def helped():
        try:
            ex3 = extract.extract(degrade=degraded, bare=bare, help=set(keys))
        except Exception:
            return
        mods = sorted({k.split("::")[0] for k in keys})
        only = [a for m in mods for a in ("--verify-only-module", m if m != "lib" else "lib_")]
        v = Verus(work, "claxon3").run(ex3, ["--rlimit", "60", "--smt-option", "timeout=75000"] + only, timeout=200, stop=stop)
        hard = [e for e in v.errors if not OBLIGATION.search(e["message"]) and not UNDECIDED.search(e["message"])]
        if v.ran and v.verified > 0 and not v.timeout and not hard:
            res["helped"] = sort_errors(ex3, v)
    ts = [threading.Thread(target=other)] + ([threading.Thread(target=helped)] if keys else [])
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ok = set()
    if "helped" in res:
        ok = set(k for k in keys if k not in res["helped"][0] and k not in res["helped"][1])
    if "other" in res:
        f2, u2 = res["other"]
        fl, un = {k: x for k, x in f2.items() if k in fl or k in un}, {k: x for k, x in u2.items() if k in un}
    return {k: x for k, x in fl.items() if k not in ok}, {k: x for k, x in un.items() if k not in ok}, ok

def called(ex, keys):
    """The functions that those of the property call, directly or not (by name: an over-approximation)."""
    by = {}
    for k, f in ex.fns.items():
        if f["has_body"]:
            by.setdefault(k.rsplit("::", 1)[-1], []).append(k)
    text = {}
    for l, m in zip(ex.text.split("\n"), ex.map):
        if m and m[2] and not m[3] and not m[2].startswith("spec::"):
            text.setdefault(m[2], []).append(l)
    seen, todo = set(keys), list(keys)
    while todo:
        k = todo.pop()
        for of, n in set(re.findall(r"(?:\b([A-Z]\w*)\s*(?:::<[^>]*>)?\s*::\s*)?\b([a-z_][a-z0-9_]*)\s*(?:::<[^>]*>)?\(", re.sub(r"\bfn\s+\w+", "fn", "\n".join(text.get(k, []))))):
            for q in by.get(n, []):
                if q not in seen and (of in ("", "Self") or re.search(r"\b%s\b" % of, q)):
                    seen.add(q)
                    todo.append(q)
    return sorted(seen - set(keys))

def function_text(ex, key):
    return "\n".join(l for l, m in zip(ex.text.split("\n"), ex.map) if m and m[2] == key and not m[3])

def known(pid, s):
    """KNOWN-FINDING lines of this property, each confirmed on the real code."""
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return
    for l in open(p):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m and m.group(1) == pid and s.built:
            q = subprocess.run([s.bin, "finding", m.group(2)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=60)
            if q.returncode == 1:
                print("KNOWN-FINDING: property=%s %s" % (pid, m.group(3)))

if __name__ == "__main__":
    sys.exit(main())
