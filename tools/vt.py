"""Assembles a Verus source file from a contract template and the code extracted from /repo.

A template is Verus text with directives (lines beginning with @@) that pull in extracted items.
The assembler never writes executable code: bodies, signatures, type definitions come from the
extraction; the template supplies specifications, ghost code and the models of external types."""
import json, re


class Missing(Exception):
    """An anchor of the template does not exist in the extracted code."""


def norm(s):
    return re.sub(r"\s+", "", s or "")


TAG = re.compile(r"^\s*\[((?:C\d\d)(?:,C\d\d)*)\]\s?")


class Out:
    def __init__(self):
        self.lines = []
        self.tags = {}    # line -> [props]
        self.funcs = []   # dict(start, end, key, props, shape)

    def add(self, text, tagged=False):
        cur = None
        text = re.sub(r"\br#(\w+)", r"\1_", text)   # R24: raw identifiers, which the solver's names cannot hold
        for l in text.split("\n"):
            if tagged:
                m = TAG.match(l)
                if m:
                    cur = m.group(1).split(",")
                    l = l[m.end():]
                elif not l.strip():
                    cur = None
            self.lines.append(l)
            if cur:
                self.tags[len(self.lines)] = cur

    def text(self):
        return "\n".join(self.lines) + "\n"


class Spec:
    def __init__(self, name, props):
        self.name, self.props = name, props
        self.head = []          # requires / ensures / decreases
        self.attrs = []
        self.loops = {}
        self.bodies = {}
        self.anchors = []       # (where, name, k, lines)
        self.start, self.end, self.tail = [], [], []
        self.external = False
        self.subst = []
        self.sigsub = []
        self.opt = False
        self.nobody = False
        self.world = False
        self.closures = {}
        self.callback = None


def expand_for(lines):
    out, i = [], 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r"^@@for\s+(\S+)\s+in\s+(.*)$", l)
        if not m:
            out.append(l)
            i += 1
            continue
        depth, j = 1, i + 1
        while depth:
            if lines[j].startswith("@@for "):
                depth += 1
            elif lines[j].startswith("@@endfor"):
                depth -= 1
            j += 1
        body = lines[i + 1:j - 1]
        names = m.group(1).split(",")
        # Inner lists (whose text comes from an outer one) are separated by ; and ~.
        inner = " " not in m.group(2).strip() and (";" in m.group(2) or "~" in m.group(2))
        for val in (m.group(2).strip().split(";") if inner else m.group(2).split()):
            vals = val.split("~" if inner else ",")
            b = []
            for x in body:
                for n, v in zip(names, vals):
                    x = x.replace("$" + n, v)
                b.append(x)
            out += expand_for(b)
        i = j
    return out


def lists(t):
    """`seq! [a, b]` with what makes lists of a and b (the types among them have no comma that is not in brackets)."""
    m = re.search(r"seq! ?\[", t)
    if not m:
        return t
    depth, parts, i, j = 0, [], m.end(), m.end()
    while True:
        c = t[j]
        if c in ",]" and depth == 0:
            parts.append(t[i:j].strip())
            i = j + 1
            if c == "]":
                break
        elif c in "([{<":
            depth += 1
        elif c in ")]}>":
            depth -= 1
        j += 1
    return t[:m.start()] + "nil()" + "".join(".push(%s)" % lists(p) for p in parts if p) + lists(t[j + 1:])


class Assembler:
    def __init__(self, items, only_props=None):
        # R20: std's derive calls the hasher's type __H; the verifier wants the name that the trait gives it.
        self.items = json.loads(re.sub(r"\b__H\b", "H", json.dumps(items)))
        self.out = Out()
        self.used = []
        self.skipped = []
        self.unspecified = []
        self.rules = set()
        self.missing = []
        # Functions for which a hint has lost its place.
        self.dropped = set()

    def find(self, kind, path, name):
        full = [x for x in self.items if x["kind"] == kind and x["name"] == name and x["path"] == path]
        if not full:
            # Moved within the crate: accept a unique item of that name.
            full = [x for x in self.items if x["kind"] == kind and x["name"] == name and "::_" not in x["path"]]
        if len(full) != 1:
            raise Missing("%s %s::%s (%d found)" % (kind, path, name, len(full)))
        return full[0]

    def find_impls(self, path, tr, self_ty):
        c = [x for x in self.items if x["kind"] == "impl" and norm(x.get("trait")) == norm(tr) and norm(x["self"]) == norm(self_ty)]
        e = [x for x in c if x["path"] == path]
        r = e or [x for x in c if x["path"].startswith(path)] or c
        if not r:
            raise Missing("impl %s for %s in %s" % (tr, self_ty, path))
        return r

    # -- functions

    def body(self, f, sp, key):
        b = f["body"]
        if sp is None:
            sp = Spec(f["name"], [])
        # Tail expression.
        m = re.search(r"__T ! \{", b)
        if m:
            i, d = m.end(), 1
            while d:
                if b[i] == "{":
                    d += 1
                elif b[i] == "}":
                    d -= 1
                elif b[i] in "\"":
                    i = b.index('"', i + 1)
                i += 1
            inner, rest = b[m.end():i - 1].strip(), b[i:]
            if sp.tail:
                inner = "let r__ = %s ;\n%s\nr__" % (inner, "\n".join(sp.tail))
            b = b[:m.start()] + ("\n".join(sp.end) + "\n" if sp.end else "") + inner + rest
        else:
            b = b + "\n" + "\n".join(sp.end)
        # Loops.
        def loop(mm):
            k = mm.group(1)
            s = sp.loops.get(k)
            r = ("\n%s\n{" % "\n".join(s)) if s else "{"
            return "\n".join([r] + sp.bodies.get(k, []))
        nloops = len(re.findall(r'__L ! \("', b))
        b = re.sub(r'\{\s*__L ! \("(\d+)"\) ;', loop, b)
        for k in list(sp.loops) + list(sp.bodies):
            if int(k) >= nloops:
                self.dropped.add(key)
        # Anchors.
        count = {}
        used = set()

        def anchor(mm):
            txt = mm.group(1)
            where = "before" if txt[0] == "<" else "after"
            ins = []
            for n in txt[1:].split(","):
                k = count.get((where, n), 0)
                count[(where, n)] = k + 1
                for i, (w, name, kk, lines) in enumerate(sp.anchors):
                    if w == where and name == n and (kk == "*" or int(kk) == k):
                        ins += lines
                        used.add(i)
            return "\n".join(ins)
        b = re.sub(r'__A ! \("([^"]*)"\) ;', anchor, b)
        for i, a in enumerate(sp.anchors):
            if i not in used:
                self.dropped.add(key)
        for old, new in sp.subst:
            b = b.replace(old, new)
        b = self.token(b, sp, f)
        # Closures: their parameters get types, their results a specification.
        def closure(mm):
            k = mm.group(2)
            if k not in sp.closures:
                raise Missing("specification of closure %s of %s" % (k, key))
            ps = [x.strip() for x in mm.group(1).split(",")]
            t = "\n".join(sp.closures[k])
            for i, x in enumerate(ps):
                t = t.replace("$%d" % i, x)
            ls = t.split("\n")
            return "\n".join([l for l in ls if not l.startswith("%")] + ["{"] + [l[1:] for l in ls if l.startswith("%")])
        b = re.sub(r'\|([^|]*)\| \{\s*__K ! \("(\d+)"\) ;', closure, b)
        if sp.start:
            b = "\n".join(sp.start) + "\n" + b
        return re.sub(r"\n\s*\n+", "\n", b)

    def token(self, b, sp, f):
        """Functions that may log carry the ghost state of the logs; elsewhere, such calls are calls
        of functions that must not be called."""
        names = getattr(self, "world", [])
        if not names:
            return b
        selfs = getattr(self, "selfworld", [])
        # Methods by name, `T::f` by path, `f()` by name alone.
        alts = [r"\. (?:%s) \(" % "|".join(map(re.escape, [n for n in names if "(" not in n and "::" not in n]))]
        alts += [r"\b%s \(" % n.replace("::", " :: ").strip() if not n.startswith("::") else r"(?<=\w )%s \(" % n.replace("::", ":: ") for n in names if "::" in n]
        alts += [r"(?<![.:] )\b%s \(" % re.escape(n[:-2]) for n in names if n.endswith("()")]
        if selfs:
            alts.append(r"\bself \. (?:%s) \(" % "|".join(map(re.escape, selfs)))
        pat = "(%s)" % "|".join(alts)
        cb = [re.match(r"(\w+) :", x).group(1) for x in f["inputs"] for g in re.findall(r"(P\d+_) : FnOnce", f["generics"]) if x.endswith(": " + g)]
        if not sp.world:
            return re.sub(pat, lambda m: re.sub(r"(\w+) \($", r"forbidden_\1 (", m.group(1)), b)
        for c in cb:
            b = re.sub(r"(?<![\w.] )\b%s \(" % c, "call_paused (%s , " % c, b)
        if cb:
            pat += r"|(\bcall_paused \()"
        i = 0
        while True:
            m = re.compile(pat).search(b, i)
            if not m:
                return b
            j, d = m.end(), 1
            while d:
                d += {"(": 1, ")": -1}.get(b[j], 0)
                j += 1
            inner = b[m.end():j - 1].strip().rstrip(",").strip()
            b = b[:m.end()] + inner + (" , " if inner else "") + "Tracked (& mut * w)" + b[j - 1:]
            i = m.end()

    def do_world(self, arg, blk):
        self.world = arg.split()

    def fn(self, f, sp, key, in_trait_decl=False, pub=True, trait_impl=False):
        o = self.out
        props = sp.props if sp else []
        start = len(o.lines) + 1
        self.rules.update(f["rules"])
        inputs = list(f["inputs"])
        if sp and sp.world:
            self.rules.add("R17")
            if not in_trait_decl and not trait_impl:
                # The same function, as called where nothing may be logged.
                t = "%s%s(%s)%s %s" % (f["name"], f["generics"], ", ".join(re.sub(r"^mut ", "", x) for x in inputs), (" -> (r: %s)" % f["ret"]) if f["ret"] else "", f["where"] or "")
                for a, b in sp.sigsub:
                    t = t.replace(a, b)
                o.add("#[verifier::external_body]\npub fn forbidden_%s\n    requires false," % t)
                o.add("{ unimplemented!() }")
            inputs.append("Tracked (w) : Tracked < & mut World >")
        for a in sp.attrs if sp else []:
            o.add(a)
        ret = f["ret"]
        sig = "%sfn %s%s(%s)%s" % ("pub " if pub and not in_trait_decl and not trait_impl else "", f["name"], f["generics"],
                                   ", ".join(inputs), (" -> (r: %s)" % ret) if ret else "")
        if f["where"]:
            sig += " " + f["where"]
        for old, new in (sp.sigsub if sp else []):
            if old not in sig:
                raise Missing("signature text `%s` of %s" % (old, key))
            sig = sig.replace(old, new)
        o.add(sig)
        if sp and sp.head:
            o.add("\n".join(sp.head), tagged=True)
        if f["body"] is None or (sp and sp.nobody):
            o.add(";")
        elif sp and sp.external:
            o.add("{ unimplemented!() }")
        else:
            o.add("{")
            b = self.body(f, sp, key)
            o.add(b, tagged=True)
            o.add("}")
        ext = bool(sp and sp.external)
        o.funcs.append(dict(start=start, end=len(o.lines), key=key, props=props, shape=f["shape"], external=ext, decl=f["body"] is None or bool(sp and sp.nobody), contract=sp is not None))
        self.used.append(key)
        if sp is None and f["body"] is not None:
            self.unspecified.append(key)

    def parse_block(self, lines):
        """Splits a block into its header options and per-function specifications."""
        opts, extra, specs, cur = {}, [], {}, None
        dest = extra
        for l in lines:
            m = re.match(r"^\s*@(\w+)\s*(.*)$", l)
            if m and not l.strip().startswith("@@"):
                d, arg = m.group(1), m.group(2).strip()
                if d == "extra":
                    dest = extra
                elif d == "fn":
                    mm = re.match(r"^(\S+)\s*(?:\[(.*)\])?$", arg)
                    cur = Spec(mm.group(1), mm.group(2).split(",") if mm.group(2) else opts.get("props", []))
                    specs[cur.name] = cur
                    dest = cur.head
                elif d == "loop":
                    dest = cur.loops.setdefault(arg, [])
                elif d == "world":
                    cur.world = True
                elif d == "closure":
                    dest = cur.closures.setdefault(arg, [])
                elif d == "body":
                    dest = cur.bodies.setdefault(arg, [])
                elif d in ("before", "after"):
                    a = arg.rsplit("#", 1)
                    dest = []
                    cur.anchors.append((d, a[0], a[1] if len(a) > 1 else "0", dest))
                elif d == "start":
                    dest = cur.start
                elif d == "end":
                    dest = cur.end
                elif d == "tail":
                    dest = cur.tail
                elif d == "attr":
                    cur.attrs.append(arg)
                elif d == "external":
                    cur.external = True
                    cur.attrs.append("#[verifier::external_body]")
                elif d == "nobody":
                    cur.nobody = True
                elif d == "optional":
                    cur.opt = True
                elif d == "subst":
                    a, b = [x.rstrip() for x in (arg + " ").split(" => ", 1)]
                    if cur is None:
                        opts.setdefault("subst", []).append((a, b))
                    else:
                        cur.subst.append((a, b))
                elif d == "sig":
                    a, b = (arg + " ").split(" => ", 1)
                    cur.sigsub.append((a, b.strip()))
                elif d in ("only", "skip", "default", "selfworld"):
                    opts.setdefault(d, []).extend(arg.split())
                elif d == "props":
                    opts["props"] = arg.split(",")
                elif d == "inherent":
                    opts["inherent"] = opts["noconst"] = True
                elif d in ("bounds", "supers", "generics", "where", "self", "header"):
                    opts[d] = arg
                else:
                    raise ValueError("directive @" + d)
                continue
            dest.append(l)
        return opts, extra, specs

    def block_items(self, it, opts, specs, key, **kw):
        o = self.out
        seen = set()
        # Default methods of the trait, which every implementation that lacks them has.
        items = list(it["items"])
        for n in opts.get("default", []):
            if not any(f["kind"] == "fn" and f["name"] == n for f in items):
                t = [x for x in self.items if x["kind"] == "trait" and x["name"] == re.split(r"[ <]", it["trait"])[0]][0]
                items.append([f for f in t["items"] if f["name"] == n and f["kind"] == "fn"][0])
        for f in items:
            n = f["name"]
            if f["kind"] != "fn":
                if "noconst" in opts:
                    continue
                o.add(f["text"])
                continue
            if n in opts.get("skip", []) or ("only" in opts and n not in opts["only"] and n not in specs):
                self.skipped.append(key + "::" + n)
                continue
            seen.add(n)
            if n in specs:
                specs[n].subst += opts.get("subst", [])
            self.selfworld = opts.get("selfworld", [])
            self.fn(f, specs.get(n), key + "::" + n, **kw)
        for n, sp in specs.items():
            if n not in seen and not sp.opt:
                raise Missing("function %s of %s" % (n, key))

    def run(self, text):
        lines = expand_for(text.split("\n"))
        i = 0
        o = self.out
        while i < len(lines):
            l = lines[i]
            m = re.match(r"^@@(\w+)\s*(.*)$", l)
            if not m:
                o.add(l, tagged=True)
                i += 1
                continue
            d, arg = m.group(1), m.group(2).strip()
            i += 1
            blk = []
            if d in ("impl", "trait", "fn", "ext"):
                while lines[i].strip() != "@@end":
                    blk.append(lines[i])
                    i += 1
                i += 1
            getattr(self, "do_" + d)(arg, blk)
        return o

    # -- directives

    def do_metas(self, arg, blk):
        """R28: the associated constants of every `HasMeta` impl, as specification functions."""
        strs, words = [], [("NameMeta :: new (", "name_new ("), ("FieldTypeMeta :: TypeParam", "GFieldType::TypeParam"),
            ("FieldTypeMeta :: Type", "gtype"), ("NameMeta {", "GName {"), ("TypeMeta ::", "GType ::"), ("FieldMeta {", "GField {"),
            ("StructMeta {", "GStruct {"), ("VariantMeta {", "GVariant {"), ("EnumMeta {", "GEnum {"), ("MessageMeta ::", "GMsg ::"),
            ("MetaLink {", "GLink {"), (":: NAME", ":: name_()"), (":: TYPE", ":: type_()"), (":: LINK", ":: link_()"), ("r#type :", "ty :")]

        def text(t):
            t = re.sub(r"\s+", " ", re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: strs.append(m.group(0)) or "\x00%d\x00" % (len(strs) - 1), t))
            t = re.sub(r"\b(?:boxed|vec|option|string) :: ", "", t)
            t = re.sub(r"& ?(?:'static )?", "", re.sub(r"& (?:'static )?\[", "seq! [", t))
            for a, b in words:
                t = re.sub(r"(?<![\w#])" + re.escape(a) + (r"\b" if a[-1].isalnum() else ""), b, t)
            if "HasMeta ::" in t.replace("as HasMeta > ::", "") or re.search(r"(?<!G)\b(?:NameMeta|TypeMeta|FieldMeta|StructMeta|EnumMeta|MetaLink)\b", t):
                raise Missing("a description of a form of its own: " + back(t)[:200])
            return t

        def back(t):
            return re.sub("\x00(\\d+)\x00", lambda m: strs[int(m.group(1))] + "@", t)

        self.rules.add("R28")
        for x in self.items:
            if x["kind"] != "impl" or norm(x.get("trait")) != "HasMeta":
                continue
            c = {}
            for i in x["items"]:
                m = re.match(r"^const (\w+) : (.*?) = (.*) ;$", i.get("text", ""), re.S)
                if not m or i["kind"] != "const":
                    raise Missing("HasMeta for %s" % x["self"])
                c[m.group(1)] = text(m.group(3))
            if sorted(c) != ["LINK", "NAME", "TYPE"]:
                raise Missing("constants of HasMeta for %s" % x["self"])
            m = re.match(r"^GLink \{ (ty : .*?,) (msg : .*), links : \| \| (.*?) ?,? \}$", c["LINK"])
            if m:
                link, links = "GLink { %s %s }" % (m.group(1), m.group(2)), m.group(3)
            elif re.match(r"^[\w<>: ]+ :: link_\(\)$", c["LINK"]):
                link, links = c["LINK"], c["LINK"][:-7] + "links_()"
            else:
                raise Missing("links of HasMeta for %s" % x["self"])
            # Types may refer to themselves through the types of their fields, so that each of the
            # three gets a trait of its own: a description only needs the types of the fields, and
            # the links only need the descriptions.
            for tr, fs in [("HasMeta", [("name_", "GName", c["NAME"]), ("type_", "GType", c["TYPE"])]),
                           ("HasLink", [("link_", "GLink", link)]), ("HasLinks", [("links_", "GList<GLink>", links)])]:
                g = re.sub(r"(\w+) : [^,<>]*?(?= ?[,>])", r"\1 : " + tr, x["generics"])
                self.out.add("impl%s %s for %s {" % (g, tr, re.sub(r"\s+", " ", x["self"])))
                for n, ty, b in fs:
                    self.out.add("    open spec fn %s() -> %s { %s }" % (n, ty, back(lists(b))))
                self.out.add("}")

    def do_fn(self, arg, blk):
        path, name = arg.rsplit("::", 1) if "::" in arg else ("", arg)
        f = self.find("fn", path, name)
        opts, extra, specs = self.parse_block(["@fn %s" % name] + blk if not any(re.match(r"\s*@fn", b) for b in blk) else blk)
        self.fn(f, specs[name], arg)

    def do_const(self, arg, blk):
        path, name = arg.rsplit("::", 1) if "::" in arg else ("", arg)
        t = self.find("const", path, name)["text"]
        self.out.add(t if t.startswith("pub") else "pub " + t)

    def do_constp(self, arg, blk):
        """A constant whose value needs a proof."""
        arg, ens, proof = [x.strip() for x in arg.split("|", 2)]
        path, name = arg.rsplit("::", 1) if "::" in arg else ("", arg)
        t = self.find("const", path, name)["text"]
        m = re.match(r"^(?:pub )?const (\w+) : (.*?) = (.*) ;$", t, re.S)
        start = len(self.out.lines) + 1
        self.out.add("pub exec const %s: %s" % (m.group(1), m.group(2)))
        self.out.add("ensures\n" + ens, tagged=True)
        self.out.add("{ proof { %s } %s }" % (proof, m.group(3)))
        self.out.funcs.append(dict(start=start, end=len(self.out.lines), key=arg, props=[], shape=None, external=False, decl=False, contract=True))

    def do_struct(self, arg, blk):
        arg, _, sub = arg.partition(" | ")
        arg, _, attr = arg.partition(" ")
        path, name = arg.rsplit("::", 1) if "::" in arg else ("", arg)
        s = self.find("struct", path, name)
        if attr:
            self.out.add(attr)
        g = s["generics"]
        if s["unit"]:
            self.out.add("pub struct %s%s;" % (name, g))
        elif s["tuple"]:
            self.out.add("pub struct %s%s(%s);" % (name, g, ", ".join("pub " + f[1] for f in s["fields"])))
        else:
            t = "pub struct %s%s {\n%s\n}" % (name, g, "\n".join("    pub %s: %s," % (f[0], f[1]) for f in s["fields"]))
            if sub:
                a, b = sub.split(" => ")
                if a not in t:
                    raise Missing("`%s` in struct %s" % (a, name))
                t = t.replace(a, b)
            self.out.add(t)

    def do_enum(self, arg, blk):
        arg, _, attr = arg.partition(" ")
        path, name = arg.rsplit("::", 1) if "::" in arg else ("", arg)
        s = self.find("enum", path, name)
        if attr:
            self.out.add(attr)
        vs = []
        for v in s["variants"]:
            if v["unit"]:
                t = v["name"]
            elif v["tuple"]:
                t = "%s(%s)" % (v["name"], ", ".join(f[1] for f in v["fields"]))
            else:
                t = "%s { %s }" % (v["name"], ", ".join("%s: %s" % (f[0], f[1]) for f in v["fields"]))
            vs.append(t + (" = " + v["disc"] if v["disc"] else ""))
        self.out.add("pub enum %s%s {\n%s\n}" % (name, s["generics"], "\n".join("    %s," % x for x in vs)))

    def do_trait(self, arg, blk):
        path, name = arg.rsplit("::", 1) if "::" in arg else ("", arg)
        t = self.find("trait", path, name)
        opts, extra, specs = self.parse_block(blk)
        sup = t["supers"] + ([opts["supers"]] if "supers" in opts else [])
        self.out.add("pub trait %s%s%s {" % (name, t["generics"], (": " + " + ".join(sup)) if sup else ""))
        self.out.add("\n".join(extra), tagged=True)
        self.block_items(t, opts, specs, "%s::%s" % (path, name), in_trait_decl=True)
        self.out.add("}")

    def do_ext(self, arg, blk):
        """Default methods of a trait which no implementation overrides, as a trait of their own
        that every type with the trait has (their bodies use other implementations of the trait,
        which the verifier refuses inside its declaration)."""
        ext, arg = arg.split()
        path, name = arg.rsplit("::", 1) if "::" in arg else ("", arg)
        t = self.find("trait", path, name)
        opts, extra, specs = self.parse_block(blk)
        for x in self.items:
            if x["kind"] == "impl" and re.split(r"[ <]", x.get("trait") or "")[0] == name:
                for f in x["items"]:
                    if f["kind"] == "fn" and f["name"] in specs:
                        raise Missing("%s of %s is overridden for %s" % (f["name"], name, x["self"]))
        self.out.add("pub trait %s: %s {" % (ext, name))
        self.out.add("\n".join(extra), tagged=True)
        for f in t["items"]:
            if f["kind"] == "fn" and f["name"] in specs:
                if f["body"] is None:
                    raise Missing("default body of %s::%s" % (name, f["name"]))
                self.fn(f, specs[f["name"]], "%s::%s" % (arg, f["name"]), in_trait_decl=True)
        for n in specs:
            if not any(f["kind"] == "fn" and f["name"] == n for f in t["items"]):
                raise Missing("function %s of %s" % (n, arg))
        self.out.add("}")
        self.rules.add("R11")

    def do_impl(self, arg, blk):
        path, tr, self_ty, gen = ([x.strip() for x in arg.split("|")] + [None])[:4]
        its = self.find_impls(path, tr, self_ty)
        if gen is not None:
            its = [x for x in its if norm(x["generics"]) == norm(gen)]
            if not its:
                raise Missing("impl%s %s for %s" % (gen, tr, self_ty))
        opts, extra, specs = self.parse_block(blk)
        it = dict(its[0])
        if len(its) > 1:  # inherent impls may be split
            it["items"] = [f for x in its for f in x["items"]]
        g = opts.get("generics", it["generics"])
        w = opts.get("where", it["where"] or "")
        self.out.add("impl%s %s%s %s {" % (g, (it["trait"] + " for ") if it["trait"] and "inherent" not in opts else "", opts.get("self", it["self"]), w))
        self.out.add("\n".join(extra), tagged=True)
        self.block_items(it, opts, specs, ("%s for %s" % (norm(it["trait"]), norm(it["self"]))) if it["trait"] else norm(it["self"]), trait_impl=bool(it["trait"]) and "inherent" not in opts)
        self.out.add("}")
