#!/usr/bin/env python3
"""C21, bounded search: generates invalid message definitions and has the compiler with the real
procedural macro refuse each of them (`defs.py --case family:index --seed N` for one of them)."""
import fcntl, json, os, random, re, subprocess, sys, tempfile, threading, time

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
BUILD = os.path.join(ROOT, ".build")
MAX = 0x1FFFFFFF

FLAWS = ["missing", "duplicate", "reserved", "too-large", "no-default", "several"]
BATCH = 150


def libs():
    """The compiled crate, from cargo."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "harness.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", "-p", "steit", "--message-format=json"],
                           cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    steit = None
    for l in p.stdout.splitlines():
        d = json.loads(l) if l.startswith("{") else {}
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "steit" and "lib" in d["target"]["kind"]:
            steit = next((f for f in d["filenames"] if f.endswith(".rlib")), steit)
    return steit


PLAIN = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "String", "Vec<u32>", "Vec<String>", "Option<u8>", "Option<String>", "Box<u32>", "[u8; 3]"]
STATE = ["u8", "u16", "u32", "u64", "i8", "i32", "i64", "bool", "Box<u8>", "List<u32>", "Map<u32, i8>", "Maybe<u8>"]


class Gen:
    def __init__(self, r):
        self.r = r

    def tags(self, n):
        r = self.r
        out = set()
        while len(out) < n:
            out.add(r.choice([r.randrange(8), r.randrange(20), r.randrange(3000), r.choice([15, 16, 2047, 2048, MAX, MAX - 1, 1 << 28, 255, 256, 65535, 65536]), r.randrange(MAX + 1)]))
        l = list(out)
        r.shuffle(l)
        return l

    def literal(self, t):
        r = self.r
        s = str(t)
        k = r.randrange(12)
        if k == 0:
            s = "0x%X" % t
        elif k == 1 and t > 999:
            s = s[:-3] + "_" + s[-3:]
        elif k == 2:
            s = bin(t)
        elif k == 3:
            s += "u32"
        return s

    # A set of numbered things: fields or variants.  `flaw` None, or the kind of flaw it must have.
    def numbers(self, n, flaw):
        r = self.r
        t = self.tags(n)
        reserved = [x for x in self.tags(r.choice([0, 0, 1, 3])) if x not in t]
        missing = None
        if flaw == "duplicate":
            a, b = r.sample(range(n), 2)
            t[b] = t[a]
            # Sometimes more than two.
            if n > 3 and r.random() < 0.2:
                t[r.randrange(n)] = t[a]
        elif flaw == "reserved":
            reserved.insert(r.randrange(len(reserved) + 1), r.choice(t))
        elif flaw == "too-large":
            t[r.randrange(n)] = r.choice([MAX + 1, MAX + 2, (1 << 29) + r.randrange(1 << 20), 1 << 30, 1 << 31, (1 << 32) - 1, (1 << 31) + r.randrange(1 << 29), (1 << 30) + r.randrange(1 << 29)])
        elif flaw == "missing":
            missing = r.randrange(n)
        return t, reserved, missing

    def noise(self):
        r = self.r
        return r.choice(["", "", "", "", "#[allow(dead_code)] ", "/// Text.\n    ", "#[cfg(all())] "])

    def attr(self, parts):
        """The same attributes, in one list or in several."""
        r = self.r
        parts = list(parts)
        r.shuffle(parts)
        if len(parts) > 1 and r.random() < 0.5:
            k = r.randrange(1, len(parts))
            return "#[steit(%s)] %s#[steit(%s)] " % (", ".join(parts[:k]), self.noise(), ", ".join(parts[k:]))
        return "#[steit(%s)] " % ", ".join(parts) if parts else ""

    def reserve(self, reserved):
        r = self.r
        if not reserved:
            return []
        l = [self.literal(x) for x in reserved]
        if len(l) > 1 and r.random() < 0.3:
            k = r.randrange(1, len(l))
            return ["reserved_tags(%s)" % ", ".join(l[:k]), "reserved_tags(%s)" % ", ".join(l[k:])]
        return ["reserved_tags(%s)" % ", ".join(l)]

    def fields(self, n, flaw, state, params, named, vis):
        r = self.r
        t, reserved, missing = self.numbers(n, flaw)
        out = []
        for i in range(n):
            plain = not state or r.random() < 0.15
            ty = r.choice((PLAIN if plain else STATE) + params * 3)
            parts = [] if i == missing else ["tag = %s" % self.literal(t[i])]
            if state and plain:
                parts.append("no_state")
            if r.random() < 0.15:
                parts.append(r.choice(["no_hash", "no_eq_hash", 'csharp_name = "X%d"' % i]))
            if i == missing and r.random() < 0.3:
                parts.append(r.choice(["no_hash = false", "no_eq_hash", 'csharp_name = "Y"']))
            out.append("%s%s%s%s" % (self.noise(), self.attr(parts), vis, "f_%d: %s" % (i, ty) if named else ty))
        return ",\n    ".join(out), reserved

    def several(self, name):
        """A definition with many flaws."""
        r = self.r
        bad = r.choice([r.randrange(1, 12), r.randrange(1, 70)])
        n = bad + r.randrange(1, 5)
        t = self.tags(n + 3)
        reserved, t = t[:3], t[3:]
        kinds = r.choice([["missing"], ["too-large"], ["reserved"], ["duplicate"], ["missing", "too-large", "reserved", "duplicate"]])
        is_enum = r.random() < 0.4
        keep = r.randrange(n)
        if is_enum:
            reserved, t = [x for x in reserved if x], [x or 7777777 for x in t]
            t[keep] = 0
            reserved = reserved or [7777776]
        flawed = set(r.sample([i for i in range(n) if i != keep], bad))
        items = []
        for i in range(n):
            k = r.choice(kinds) if i in flawed else None
            x = dict(missing=None, reserved=r.choice(reserved), duplicate=t[keep]).get(k, MAX + 1 + r.randrange(1 << 30)) if k else t[i]
            if is_enum:
                items.append("    %sV%d" % (self.attr(["tag = %s" % x]) if x is not None else "", i))
            else:
                items.append("    %sf_%d: u8" % (self.attr(["tag = %s" % x]) if x is not None else "", i))
        return "#[steit_derive(Serialize, Deserialize)]\n%s\npub %s %s {\n%s\n}" % (self.attr(self.reserve(reserved)), "enum" if is_enum else "struct", name, ",\n".join(items))

    def definition(self, name, flaw):
        """Text of a definition; flaw None: a valid one."""
        r = self.r
        if flaw == "several":
            return self.several(name)
        state = r.random() < 0.3
        derives = ["State"] if state else r.choice([["Serialize", "Deserialize"], ["Serialize"], ["Deserialize"], ["Deserialize", "Serialize"]])
        extra = [d for d in ["Clone", "PartialEq", "Hash"] if r.random() < 0.3 and not (d == "Hash" and state)]
        derives = derives + extra
        r.shuffle(derives)
        params = r.choice([[], [], [], ["T"], ["T", "U"]]) if not state else []
        no_meta = bool(params)
        gen = "<%s>" % ", ".join("%s: steit::ser::Serialize + steit::de::Deserialize + steit::wire_fmt::HasWireType" % p for p in params) if params else ""
        use = ", ".join(params)
        head = ["no_meta"] if no_meta else []
        if r.random() < 0.2:
            head.append(r.choice((["derive_setters"] if "Deserialize" in derives else []) + ['csharp_name = "Q"', "no_size_cache"]))
        is_enum = flaw == "no-default" or r.random() < 0.45
        lines = "#[steit_derive(%s)]\n" % ", ".join(derives)
        if not is_enum:
            n = r.choice([2, 2, 3, 4, 7, 12]) if flaw == "duplicate" else r.choice([1, 2, 3, 5, 9] if flaw else [0, 1, 2, 3, 5])
            named = r.random() < 0.75
            body, reserved = self.fields(n, flaw, state, params, named, r.choice(["", "pub "]))
            lines += self.attr(head + self.reserve(reserved)) + "\n"
            phantom = ""
            text = "pub struct %s%s " % (name, gen) + ("{\n    %s\n}" % body if named else "(\n    %s\n);" % body)
            unused = [p for p in params if not re.search(r"\b%s\b" % p, body)]
            if unused:
                return None
            return lines + text
        n = r.choice([2, 2, 3, 4, 6]) if flaw == "duplicate" else r.choice([1, 2, 3, 5])
        where = r.choice(["variants", "fields"]) if flaw and flaw != "no-default" else "variants" if flaw else None
        t, reserved, missing = self.numbers(n, flaw if where == "variants" and flaw != "no-default" else None)
        # A variant with tag 0.
        if flaw == "no-default":
            t = [x if x else n + 7 for x in t]
            if len(set(t)) < n:
                return None
            reserved = [x for x in reserved if x not in t]
        elif 0 not in t or (missing is not None and t[missing] == 0):
            k = [i for i in range(n) if t.count(t[i]) == 1 and i != missing and t[i] not in reserved and t[i] <= MAX]
            if k and (flaw != "duplicate" or where != "variants" or r.random() < 0.6):
                t[r.choice(k)] = 0
            elif flaw == "duplicate" and where == "variants":
                d = next(x for x in t if t.count(x) > 1)
                t = [0 if x == d else x for x in t]
            elif flaw == "reserved" and where == "variants":
                d = next(x for x in t if x in reserved)
                t = [0 if x == d else x for x in t]
                reserved = [0 if x == d else x for x in reserved]
            else:
                return None
        if flaw != "reserved" or where != "variants":
            reserved = [x for x in reserved if x not in t]
        bad = r.randrange(n) if where == "fields" else None
        vs = []
        for i in range(n):
            kind = r.choice(["named", "tuple", "unit"])
            f = flaw if i == bad else None
            m = r.choice([0, 1, 2, 3])
            if f:
                m = r.choice([2, 3, 6]) if f == "duplicate" else r.choice([1, 2, 4])
                kind = r.choice(["named", "tuple"])
            body, fres = self.fields(m, f, state, params, kind == "named", "") if kind != "unit" else ("", [])
            parts = [] if i == missing else ["tag = %s" % self.literal(t[i])]
            parts += self.reserve(fres)
            if r.random() < 0.1:
                parts.append('csharp_name = "V%d"' % i)
            vs.append("    %s%sV%d%s" % (self.noise(), self.attr(parts), i, "{ %s }" % body if kind == "named" else "(%s)" % body if kind == "tuple" else ""))
        lines += self.attr([h for h in head if h != "no_size_cache"] + self.reserve(reserved)) + "\n"
        body = ",\n".join(vs)
        if [p for p in params if not re.search(r"\b%s\b" % p, body)]:
            return None
        return lines + "pub enum %s%s {\n%s\n}" % (name, gen, body)


def make(flaw, seed, index, name):
    k = 0
    while True:
        r = random.Random("%s/%d/%d/%d" % (flaw, seed, index, k))
        d = Gen(r).definition(name, flaw)
        if d:
            return d
        k += 1


PRE = """#![allow(warnings)]
#![crate_type = "lib"]
use steit::{steit_derive, types::*};
"""


def rustc(steit, text, work, errors_only=True):
    src = os.path.join(work, "d.rs")
    open(src, "w").write(text)
    p = subprocess.run(["rustc", "--edition", "2018", "--emit=metadata", "-o", os.path.join(work, "d.rmeta"), "--error-format=json",
                        "-L", "dependency=" + os.path.join(os.path.dirname(steit), "deps"), "-L", "dependency=" + os.path.dirname(steit),
                        "--extern", "steit=" + steit, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("level") == "error":
                errs.append(d)
    return p.returncode, errs, p.stderr


def lines_of(d):
    r = set()

    def walk(s):
        r.add(s["line_start"])
        r.add(s["line_end"])
        if s.get("expansion"):
            walk(s["expansion"]["span"])
    for s in d["spans"]:
        walk(s)
    return r


def check_batch(steit, flaw, seed, first, n, work):
    """The first invalid definition that compiles, if any, and how many were refused."""
    text, where = PRE, []
    for i in range(n):
        a = text.count("\n") + 1
        text += make(flaw, seed, first + i, "D%d" % i) + "\n"
        where.append((a, text.count("\n")))
    rc, errs, _ = rustc(steit, text, work)
    hit = set()
    for e in errs:
        for l in lines_of(e):
            for i, (a, b) in enumerate(where):
                if a <= l <= b:
                    hit.add(i)
    for i in range(n):
        if i not in hit:
            rc, errs, err = rustc(steit, PRE + make(flaw, seed, first + i, "D") + "\n", work)
            if rc == 0:
                return i, n
    return None, n


def search(seed, tier, secs):
    res = dict(evaluations=0, distinct_nontrivial=0, samples=[], families=len(FLAWS), failure=None, secs=secs, processes=8)
    steit = libs()
    if not steit:
        print("the crate does not build")
        res["broken"] = True
        return res
    end = time.time() + secs
    lock = threading.Lock()
    state = dict(next=0)
    seen = set()
    # The machinery itself: valid definitions compile (else it would refuse everything).
    with tempfile.TemporaryDirectory() as work:
        text = PRE + "\n".join(make(None, seed, i, "D%d" % i) for i in range(100)) + "\n"
        rc, errs, err = rustc(steit, text, work)
        res["valid_definitions_compile"] = rc == 0

    def worker():
        with tempfile.TemporaryDirectory() as work:
            while time.time() < end and not res["failure"]:
                with lock:
                    k = state["next"]
                    state["next"] += 1
                flaw = FLAWS[k % len(FLAWS)]
                first = (k // len(FLAWS)) * BATCH
                try:
                    bad, n = check_batch(steit, flaw, seed, first, BATCH, work)
                except Exception as e:
                    print("search failed: %s" % e)
                    res["broken"] = True
                    return
                with lock:
                    res["evaluations"] += n
                    for i in range(n):
                        seen.add(hash(make(flaw, seed, first + i, "D")))
                    if len(res["samples"]) < 5:
                        res["samples"].append("%s: %s" % (flaw, make(flaw, seed, first, "D").replace("\n", " ")[:200]))
                    if bad is not None and not res["failure"]:
                        d = make(flaw, seed, first + bad, "D")
                        res["failure"] = dict(family=flaw, index=first + bad, input=PRE + d, what="this invalid definition (%s) compiles: %s" % (flaw, d.replace("\n", " ")))

    ts = [threading.Thread(target=worker) for _ in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res["distinct_nontrivial"] = len(seen)
    return res


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    seed = int(opt("--seed", "1"))
    if "--case" in a:
        flaw, _, i = opt("--case", "").rpartition(":")
        d = make(flaw, seed, int(i), "D")
        print(d)
        with tempfile.TemporaryDirectory() as work:
            rc, errs, _ = rustc(libs(), PRE + d + "\n", work)
        print("compiles" if rc == 0 else "refused: " + "; ".join(e["message"] for e in errs))
        sys.exit(1 if rc == 0 else 0)
    print(json.dumps(search(seed, "quick", int(opt("--secs", "20"))), indent=1))
