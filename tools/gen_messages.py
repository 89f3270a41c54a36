"""Writes the contracts of derived messages from a description of the messages (development helper;
its output is committed).  The descriptions restate the documented wire format: a message is its
fields, in order of declaration, each tagged; an enum is the tag of its variant, then its fields."""
import os, re

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
ALL = {}


class T:
    """A derived type.  groups: (variant or None, tag, [(rust name or index, tag, type, eq, hash)], cached)."""

    def __init__(self, name, groups, gens=(), ctor="new", cache="size_cache", path="", eq=True, hash=True, clone=True, setters=True, default_variant=None, state=False, rt="runtime"):
        self.name, self.groups, self.gens, self.ctor, self.cache, self.path = name, groups, list(gens), ctor, cache, path or "_IMPL_STEIT_FOR_" + name.upper()
        self.eq, self.hash, self.clone, self.setters = eq, hash, clone, setters
        self.is_enum = groups[0][0] is not None
        ALL[name] = self
        self.state, self.rt = state, rt
        self.default_variant = default_variant or (groups[0][0] if self.is_enum else None)

    def ty(self):
        return self.name + ("<%s>" % ", ".join(self.gens) if self.gens else "")

    def g(self, bound):
        bound = "State" if self.state else bound
        return "<%s>" % ", ".join("%s: %s" % (x, bound) for x in self.gens) if self.gens else ""

    def ga(self):
        return "::<%s>" % ", ".join(self.gens) if self.gens else ""

    def vg(self):
        """Generic arguments of its ghost type."""
        return "<%s>" % ", ".join(x + "::V" for x in self.gens) if self.gens else ""

    def vty(self):
        return self.name + "V" + self.vg()


INTS = "u8 u16 u32 u64 i8 i16 i32 i64 bool".split()


def st_(f):
    return len(f) < 6 or f[5]


def vt(t, gens=()):
    t = t.strip()
    if t in INTS:
        return t
    if t in ("String", "Bytes"):
        return "Seq<u8>"
    m = re.match(r"^(\w+)<(.*)>$", t)
    if m:
        a, b = m.groups()
        if a == "Map":
            return "Seq<(u32, %s)>" % vt(b.split(",", 1)[1], gens)
        if a in ("Vec", "List"):
            return "Seq<%s>" % vt(b, gens)
        if a == "Option":
            return "Option<%s>" % vt(b, gens)
        if a == "Box":
            return vt(b, gens)
    if t in ALL:
        return ALL[t].vty()
    if t in gens:
        return t + "::V"
    raise ValueError(t)


def gname(t, var):
    return t.name + ("_" + var if var else "")


def fname(f):
    return "f%d" % f[0] if isinstance(f[0], int) else f[0]


def group(t, var, fields):
    """Ghost struct, encoding, decoding and lemmas of one list of fields."""
    G = gname(t, var)
    o = []
    gdecl = "<%s>" % ", ".join("V" + x for x in t.gens) if t.gens and fields else ""
    GV = G + "V" + (t.vg() if fields else "")
    fn = [fname(f) for f in fields]
    ty = [f[2] for f in fields]
    tg = [f[1] for f in fields]
    n = len(fields)
    decl = ["pub %s: %s," % (fn[i], ("V" + ty[i]) if ty[i] in t.gens else vt(ty[i], t.gens)) for i in range(n)]
    o.append("pub struct %sV%s { %s }" % (G, gdecl, " ".join(decl)))
    a = t.ga()
    F = lambda i, v="v": "field::<%s>(Some(%du32), true, %s.%s)" % (ty[i], tg[i], v, fn[i])
    o.append("""
pub open spec fn %(G)s_enc%(gs)s(v: %(GV)s) -> Seq<u8> {
    %(enc)s
}
pub open spec fn %(G)s_dv%(gd)s() -> %(GV)s { %(G)sV { %(dv)s } }
pub open spec fn %(G)s_wf%(gs)s(v: %(GV)s) -> bool { %(wf)s }

/// One field: its number, its wire type, and the bytes behind its tag.
#[verifier::opaque]
pub open spec fn %(G)s_step%(gde)s(pre: %(GV)s, n: nat, w: WireType, r: Seq<u8>) -> Option<(%(GV)s, Seq<u8>)> {
    %(branches)s{
        match skip(w, r) { None => None, Some(q) => Some((pre, q)) }
    }
}

pub open spec fn %(G)s_dec%(gde)s(pre: %(GV)s, s: Seq<u8>) -> Option<%(GV)s>
    decreases s.len(),
{
    if s.len() == 0 {
        Some(pre)
    } else {
        match tdec(s) {
            None => None,
            Some(((n, w), r)) => match %(G)s_step%(a)s(pre, n, w, r) {
                None => None,
                Some((x, q)) => if q.len() < s.len() { %(G)s_dec%(a)s(x, q) } else { None },
            },
        }
    }
}

pub proof fn %(G)s_step_local%(grt)s(pre: %(GV)s, n: nat, w: WireType, r: Seq<u8>, t: Seq<u8>)
    requires complete(w, r) is Some,
    ensures
[C09,C06]     %(G)s_step%(a)s(pre, n, w, r) matches Some((x, q)) ==> q == complete(w, r).unwrap() && %(G)s_step%(a)s(pre, n, w, r + t) == Some((x, q + t)),
{
    reveal(%(G)s_step);
    lemma_complete_local(w, r, t);
    %(concat)s{ }
}

/// C09: reading two messages one after the other is reading their concatenation.
pub proof fn %(G)s_concat%(grt)s(pre: %(GV)s, a: Seq<u8>, b: Seq<u8>)
    requires whole(a),
    ensures
[C09,C06]     %(G)s_dec%(a)s(pre, a) matches Some(x) ==> %(G)s_dec%(a)s(pre, a + b) == %(G)s_dec%(a)s(x, b),
    decreases a.len(),
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        lemma_tdec_local(a, b);
        let ((n, w), r) = tdec(a).unwrap();
        lemma_complete_local(w, r, b);
        %(G)s_step_local%(a)s(pre, n, w, r, b);
        if let Some((x, q)) = %(G)s_step%(a)s(pre, n, w, r) {
            %(G)s_concat%(a)s(x, q, b);
        }
    }
}

pub proof fn %(G)s_step_unknown%(grt)s(pre: %(GV)s, n: nat, w: WireType, r: Seq<u8>)
    requires
        %(unk)s
        true,
    ensures
[C06]     %(G)s_step%(a)s(pre, n, w, r) == (match skip(w, r) { None => None, Some(q) => Some((pre, q)) }),
{
    reveal(%(G)s_step);
    %(unkd)s
}

/// C06: a field that is not known, or not of the type wanted, changes nothing.
pub proof fn %(G)s_unknown%(grt)s(pre: %(GV)s, a: Seq<u8>, n: nat, w: WireType, u: Seq<u8>, b: Seq<u8>)
    requires
        whole(a),
        one_field(n, w, u),
        %(unk)s
        %(G)s_dec%(a)s(pre, a) is Some,
    ensures
[C06]     %(G)s_dec%(a)s(pre, a + u + b) == %(G)s_dec%(a)s(pre, a + b),
{
    let x = %(G)s_dec%(a)s(pre, a).unwrap();
    %(G)s_concat%(a)s(pre, a, u + b);
    %(G)s_concat%(a)s(pre, a, b);
    assert(a + u + b =~= a + (u + b));
    lemma_one_field(n, w, u, b);
    let r = tdec(u + b).unwrap().1;
    %(G)s_step_unknown%(a)s(x, n, w, r);
}
""" % dict(unkd="".join("if n == %d { assert(%s_step%s(pre, n, w, r) == (match mdec::<%s>(pre.%s, w, r) { None => None, Some((x, q)) => Some((%sV%s { %s }, q)) })); assert(pre == %sV { %s: pre.%s%s }); } " % (tg[i], G, a, ty[i], fn[i], G, "", "%s: x" % fn[i] + (", ..pre" if n > 1 else ""), G, fn[i], fn[i], ", ..pre" if n > 1 else "") for i in range(n)),
           G=G, gs=t.g("Serialize"), gd=t.g("Default"), gde=t.g("Deserialize"), grt=t.g("RoundTrip"), GV=GV, a=a,
           enc=" + ".join(F(i) for i in range(n)) or "seq![]",
           dv=", ".join("%s: <%s as Default>::dv()" % (fn[i], ty[i]) for i in range(n)),
           wf=" && ".join("<%s as Serialize>::wf(v.%s)" % (ty[i], fn[i]) for i in range(n)) or "true",
           branches="".join("""if n == %d {
        match mdec::<%s>(pre.%s, w, r) { None => None, Some((x, q)) => Some((%sV { %s }, q)) }
    } else """ % (tg[i], ty[i], fn[i], G, "%s: x, ..pre" % fn[i]) for i in range(n)),
           concat="".join("""if n == %d {
        lemma_mdec_local::<%s>(pre.%s, w, r, t);
    } else """ % (tg[i], ty[i], fn[i]) for i in range(n)),
           unk="".join("n == %d ==> w != <%s as HasWireType>::WIRE_TYPE,\n        " % (tg[i], ty[i]) for i in range(n))))
    # Round trip.
    steps = ["let e%d = Seq::<u8>::empty();" % n]
    for i in range(n - 1, -1, -1):
        steps.append("let e%d = %s + e%d;" % (i, F(i), i + 1))
    for i in range(n):
        steps.append("lemma_field_len::<%s>(%du32, v.%s); <%s as Serialize>::omit_law(v.%s);" % (ty[i], tg[i], fn[i], ty[i], fn[i]))
    steps.append("let d0 = %s_dv%s();" % (G, a))
    for i in range(n):
        o.append("""
pub proof fn %(G)s_rt%(i)d%(grt)s(d: %(GV)s, x: <%(T)s as Viewed>::V, tail: Seq<u8>)
    requires
        <%(T)s as Serialize>::wf(x),
        small(<%(T)s as Serialize>::enc(x).len()),
        d.%(f)s == <%(T)s as Default>::dv(),
    ensures
[C03,C05] %(G)s_dec%(a)s(d, field::<%(T)s>(Some(%(tag)du32), true, x) + tail) == %(G)s_dec%(a)s(%(G)sV { %(f)s: x, ..d }, tail),
{
    reveal(%(G)s_step);
    lemma_field_rt::<%(T)s>(%(tag)du32, x, tail);
    assert(d == %(G)sV { %(f)s: d.%(f)s, ..d });
}
""" % dict(G=G, i=i, grt=t.g("RoundTrip"), GV=GV, T=ty[i], f=fn[i], tag=tg[i], a=a))
        steps.append("%s_rt%d%s(d%d, v.%s, e%d);" % (G, i, a, i, fn[i], i + 1))
        steps.append("let d%d = %sV { %s: v.%s, ..d%d };" % (i + 1, G, fn[i], fn[i], i) if n > 1 else "let d1 = %sV { %s: v.%s };" % (G, fn[i], fn[i]))
    # enc(v) == e0
    pre = ""
    cat = []
    for k in range(1, n + 1):
        cat.append("let p%d = %s;" % (k, " + ".join(F(i) for i in range(k))))
    for k in range(n - 1, 0, -1):
        cat.append("lemma_assoc(p%d, %s, e%d); assert(p%d + e%d == p%d + e%d);" % (k, F(k), k + 1, k + 1, k + 1, k, k))
    if n:
        cat.append("assert(p%d + e%d =~= p%d); assert(%s_enc%s(v) == e0);" % (n, n, n, G, a))
    else:
        cat.append("assert(%s_enc%s(v) =~= e0);" % (G, a))
    o.append("""
pub proof fn %(G)s_rt%(grt)s(v: %(GV)s)
    requires
        %(G)s_wf%(a)s(v),
        small(%(G)s_enc%(a)s(v).len()),
    ensures
[C03,C05] %(G)s_dec%(a)s(%(G)s_dv%(a)s(), %(G)s_enc%(a)s(v)) == Some(v),
{
    %(cat0)s
    %(cat)s
    %(steps)s
    assert(d%(n)d == v);
}
""" % dict(G=G, grt=t.g("RoundTrip"), GV=GV, a=a, n=n, cat0="\n    ".join(steps[:n + 1]), cat="\n    ".join(cat), steps="\n    ".join(steps[n + 1:])))
    return "\n".join(o)


def lens(t, fields, v="v"):
    return "\n        ".join("lemma_field_len::<%s>(%du32, %s.%s); <%s as Serialize>::omit_law(%s.%s);" % (f[2], f[1], v, fname(f), f[2], v, fname(f)) for f in fields)


def cats(fields, w0, v="v", head=None):
    """w0 + a + b + c == w0 + (a + b + c)"""
    F = ["field::<%s>(Some(%du32), true, %s.%s)" % (f[2], f[1], v, fname(f)) for f in fields]
    o = []
    for k in range(1, len(F)):
        o.append("lemma_assoc(%s, %s, %s);" % (w0, " + ".join(F[:k]), F[k]))
    return "\n        ".join(o)


def message(t):
    o = ["// ---- %s" % t.name, ""]
    a = t.ga()
    for var, tag, fields, cached in t.groups:
        o.append(group(t, var, fields))
    G0 = t.name
    V = t.vty()
    vargs = "<%s>" % ", ".join("V" + x for x in t.gens) if t.gens else ""
    if t.is_enum:
        o.append("pub enum %sV%s { %s }\n" % (t.name, vargs, " ".join("%s(%sV%s)," % (var, gname(t, var), vargs if fs else "") for var, _, fs, _ in t.groups)))

    def pat(var, fields, cached, names):
        """Pattern of a variant of the real enum in ghost code."""
        if all(isinstance(f[0], int) for f in fields) and fields:
            return "%s::%s(%s)" % (t.name, var, ", ".join(list(names) + (["_c"] if cached else []) + (["_r"] if t.state else [])))
        return "%s::%s { %s }" % (t.name, var, ", ".join(["%s: %s" % (f[0], x) for f, x in zip(fields, names)] + ([("%s: _c" % t.cache)] if cached else []) + (["%s: _r" % t.rt] if t.state else [])))

    def each(f_struct, f_var):
        """An expression over the fields of self: f(list of field expressions, fields, cache expr, group)."""
        if not t.is_enum:
            var, tag, fields, cached = t.groups[0]
            return f_struct(["self.%s" % f[0] for f in fields], fields, "self.%s" % t.cache if cached else None, None, None)
        arms = []
        for var, tag, fields, cached in t.groups:
            names = ["x%d" % i for i in range(len(fields))]
            arms.append("%s => %s," % (pat(var, fields, cached, names), f_var(names, fields, "_c" if cached else None, var, tag)))
        return "match *self { %s }" % " ".join(arms)

    def view(xs, fields, c, var, tag):
        s = "%sV { %s }" % (gname(t, var), ", ".join("%s: %s.v()" % (fname(f), x) for f, x in zip(fields, xs)))
        return s if var is None else "%sV::%s(%s)" % (t.name, var, s)

    # States: where they and their fields live.
    R = lambda var: "_r" if var else "self.%s" % t.rt

    def at_at(xs, fields, c, var, tag):
        at = "at.child(%du32)" % tag if var else "at"
        return " && ".join(["%s.at() == %s" % (R(var), at)] + ["%s.attached(%s.child(%du32))" % (x, at, f[1]) for x, f in zip(xs, fields) if st_(f)] + ["%s.inv()" % x for x, f in zip(xs, fields) if not st_(f)])

    def at_home(xs, fields, c, var, tag):
        at = "%s.at()" % R(var)
        return " && ".join((["%s.path.len() > 0" % at, "%s == %s.parent().child(%du32)" % (at, at, tag)] if var else []) + ["%s.attached(%s.child(%du32))" % (x, at, f[1]) for x, f in zip(xs, fields) if st_(f)] + ["%s.inv()" % x for x, f in zip(xs, fields) if not st_(f)]) or "true"

    conj = lambda m, cm=None: (lambda xs, fields, c, var, tag: " && ".join(["%s.%s()" % (x, m) for x in xs] + ([cm % c] if cm and c else [])) or "true")
    o.append("""
impl%(gv)s Viewed for %(ty)s {
    type V = %(V)s;
    open spec fn v(&self) -> %(V)s { %(view)s }
    open spec fn attached(&self, at: At) -> bool { %(att)s }
    open spec fn inv(&self) -> bool { %(inv)s }
}
""" % dict(gv=t.g("Viewed"), ty=t.ty(), V=V, view=each(view, view), inv=each(conj("inv"), conj("inv")) if not t.state else each(at_home, at_home),
           att="true" if not t.state else each(at_at, at_at)))
    # Constructors.
    dvar = t.default_variant
    dvx = "%s_dv%s()" % (t.name, a) if not t.is_enum else "%sV::%s(%s_dv%s())" % (t.name, dvar, gname(t, dvar), a)
    o.append("@@impl %s | | %s\n@generics %s\n@props C19,C05" % (t.path, t.ty(), t.g("Default")))

    def snake(s):
        return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()
    ctors = [(t.ctor, dvx)]
    if t.is_enum:
        for var, tag, fields, cached in t.groups:
            ctors.append((t.ctor + "_" + snake(var), "%sV::%s(%s_dv%s())" % (t.name, var, gname(t, var), a)))
    for c, x in ctors:
        o.append("@fn %s [C19,C05%s]\n    ensures\n[C19,C05] r.v() == %s,\n        r.inv()%s," % (c, ",C13" if t.state else "", x, ",\n[C13] r.attached(runtime.at())" if t.state else ""))
    if t.state:
        o.append(setters(t, snake))
    elif t.setters:
        for var, tag, fields, cached in t.groups:
            for f in fields:
                nm = "set_" + (snake(var) + "_" if var else "") + fname(f)
                upd = "..%s" if len(fields) > 1 else None
                if var is None:
                    post = "(*r).v() == (%sV { %s: value.v()%s })" % (t.name, fname(f), ", ..(*old(self)).v()" if len(fields) > 1 else "")
                else:
                    base = "match (*old(self)).v() { %sV::%s(x) => x, _ => %s_dv%s() }" % (t.name, var, gname(t, var), a)
                    post = "(*r).v() == (%sV::%s(%sV { %s: value.v()%s }))" % (t.name, var, gname(t, var), fname(f), ", ..(%s)" % base if len(fields) > 1 else "")
                o.append("@fn %s [C19]\n    requires (*old(self)).inv(), value.inv(),\n    ensures\n[C19] %s,\n[C19] *final(self) == *final(r),\n        (*r).inv()," % (nm, post))
    o.append("@@end\n")
    o.append("""@@impl %s | Default | %s
@extra
    open spec fn dv() -> %s { %s }
@fn default [C19,C05]
@@end

@@impl %s | HasWireType | %s
@@end
""" % (t.path, t.ty(), V, dvx, t.path, t.ty()))
    # Serialize.
    if t.is_enum:
        enc = "match v { %s }" % " ".join("%sV::%s(x) => <u32 as Serialize>::enc(%du32) + %s_enc%s(x)," % (t.name, var, tag, gname(t, var), a) for var, tag, _, _ in t.groups)
        wf = "match v { %s }" % " ".join("%sV::%s(x) => %s_wf%s(x)," % (t.name, var, gname(t, var), a) for var, tag, _, _ in t.groups)
    else:
        enc = "%s_enc%s(v)" % (t.name, a)
        wf = "%s_wf%s(v)" % (t.name, a)
    cons = lambda xs, fields, c, var, tag: " && ".join(["%s.consistent()" % x for x in xs] + (["%s.expected() == Self::enc(self.v()).len()" % c] if c else [])) or "true"
    st = lambda xs, fields, c, var, tag: " && ".join(["%s.stamped()" % x for x in xs] + (["%s.stamped()" % c] if c else [])) or "true"
    if t.is_enum:
        start = "reveal(<u32 as Serialize>::enc);" if False else ""
        pl = ["let ghost v = self.v();", "proof { assert(forall|n: u32| #[trigger] <u32 as Serialize>::enc(n) == varint(n as nat)); }",
              "proof { lemma_varint_len(%s);" % "); lemma_varint_len(".join("%d" % tag for _, tag, _, _ in t.groups),
              "match v {"]
        pc = ["proof { match v {"]
        for var, tag, fields, _ in t.groups:
            pl.append("%sV::%s(v) => {\n        %s }" % (t.name, var, lens(t, fields)))
            pc.append("%sV::%s(v) => {\n        %s\n        lemma_assoc((*old(writer)).written(), <u32 as Serialize>::enc(%du32), %s_enc%s(v)); %s }" % (
                t.name, var, cats(fields, "((*old(writer)).written() + <u32 as Serialize>::enc(%du32))" % tag), tag, gname(t, var), a,
                "assert(<u32 as Serialize>::enc(%du32) + Seq::<u8>::empty() =~= <u32 as Serialize>::enc(%du32));" % (tag, tag) if not fields else ""))
        pl.append("} }")
        pc.append("} }")
        lenp = "\n    ".join(pl)
        catp = "\n    ".join(pc)
    else:
        fields = t.groups[0][2]
        lenp = "let ghost v = self.v();\n    proof { %s }" % lens(t, fields)
        catp = "proof { %s %s }" % (cats(fields, "(*old(writer)).written()"), "assert((*old(writer)).written() + Seq::<u8>::empty() =~= (*old(writer)).written());" if not fields else "")
    o.append("""@@impl %(p)s | Serialize | %(ty)s
@default is_omissible
@extra
    open spec fn enc(v: %(V)s) -> Seq<u8> { %(enc)s }
    open spec fn omit(v: %(V)s) -> bool { Self::enc(v).len() == 0 }
    open spec fn consistent(&self) -> bool { %(cons)s }
    open spec fn kids_stamped(&self) -> bool { %(kids)s }
    open spec fn stamped(&self) -> bool { %(st)s }
    open spec fn wf(v: %(V)s) -> bool { %(wf)s }
    proof fn stamp_law(&self) {}
    proof fn omit_law(v: %(V)s) {}
@fn compute_size [C02,C10]
@start
    %(lenp)s
@fn serialize_cached [C02,C03]
@start
    %(lenp)s
@end
    %(catp)s
@fn size_cache [C10]
@fn is_omissible [C05]
@@end
""" % dict(p=t.path, ty=t.ty(), V=V, enc=enc, wf=wf, cons=each(cons, cons), kids=each(conj("stamped"), conj("stamped")), st=each(st, st), lenp=lenp, catp=catp))
    # Deserialize.
    use = "broadcast use moved_refl, moved_trans, tdec_len;"
    suf = lambda fields, v: " ".join("lemma_mdec_suffix::<%s>(%s, w, r);" % (f[2], x) for f, x in zip(fields, v))
    if t.is_enum:
        dec = "match <u32 as Deserialize>::dec(0, s) { None => None, Some((t, r)) => %s{ None } }" % "".join(
            "if t == %d { match %s_dec%s(match pre { %sV::%s(x) => x, _ => %s_dv%s() }, r) { None => None, Some(x) => Some((%sV::%s(x), Seq::empty())) } } else " % (
                tag, gname(t, var), a, t.name, var, gname(t, var), a, t.name, var) for var, tag, _, _ in t.groups)
        loops = []
        for k, (var, tag, fields, cached) in enumerate(t.groups):
            G = gname(t, var)
            cur = "%sV { %s }" % (G, ", ".join("%s: (*%s).v()" % (fname(f), fname(f)) for f in fields))
            base = "match v0 { %sV::%s(x) => x, _ => %s_dv%s() }" % (t.name, var, G, a)
            whole = ""
            if t.state:
                tuple_ = fields and isinstance(fields[0][0], int)
                if tuple_:
                    pt = "%s::%s(%s)" % (t.name, var, ", ".join(["_x%d" % i for i in range(len(fields))] + (["_c"] if cached else []) + ["_r"]))
                else:
                    pt = "%s::%s { %s }" % (t.name, var, ", ".join(["%s: _x%d" % (f[0], i) for i, f in enumerate(fields)] + (["%s: _c" % t.cache] if cached else []) + ["%s: _r" % t.rt]))
                whole = "\n        (*old(self)).inv(), home == (*old(self)).home(),\n        after_borrow(*self) matches %s && %s_r.at() == home.child(%du32)," % (pt, "".join("_x%d == *final(%s) && " % (i, fname(f)) for i, f in enumerate(fields)), tag)
            loops.append("""@loop %(k)d
    invariant
        moved(*old(reader), *reader),
        v0 == (*old(self)).v(),
        Self::dec(v0, (*old(reader)).rem()) == (match %(G)s_dec%(a)s(%(base)s, s1) { None => None, Some(x) => Some((%(E)sV::%(var)s(x), Seq::<u8>::empty())) }),
        %(inv)s
[C03,C06,C09] %(G)s_dec%(a)s(%(base)s, s1) == %(G)s_dec%(a)s(%(cur)s, (*reader).rem()),
    decreases (*reader).rem().len(),
@body %(k)d
    proof { reveal(%(G)s_step); }""" % dict(k=k, E=t.name, var=var, inv=" ".join(("(*%s).attached(home.child(%du32).child(%du32)), (*%s).inv()," % (fname(f), tag, f[1], fname(f))) if t.state and st_(f) else "(*%s).inv()," % fname(f) for f in fields) + whole, G=G, a=a, base=base, cur=cur))
        start = """    let ghost v0 = self.v();
    proof { assert(forall|p: u32, s: Seq<u8>| #[trigger] <u32 as Deserialize>::dec(p, s) == (match vdec(s) { None => None, Some((n, rest)) => Some(((n % 0x1_0000_0000) as u32, rest)) })); }
    proof { lemma_vdec_suffix((*reader).rem()); }""" + ("\n    let ghost home = self.home();\n    broadcast use attached_inv;\n    assert(Self::tracked());" if t.state else "")
        mid = "@after let tag#0\n    let ghost s1 = (*reader).rem();\n"
        lo = "\n".join(loops)
    else:
        fields = t.groups[0][2]
        dec = "match %s_dec%s(pre, s) { None => None, Some(v) => Some((v, Seq::empty())) }" % (t.name, a)
        start = "    let ghost v0 = self.v();\n    proof { reveal(%s_step); }" % t.name + "\n    let ghost s0 = (*reader).rem();"
        mid = ""
        lo = """@loop 0
    invariant
        moved(*old(reader), *reader),
        %(inv)s
[C03,C06,C09] %(G)s_dec%(a)s(v0, s0) == %(G)s_dec%(a)s(self.v(), (*reader).rem()),
    decreases (*reader).rem().len(),""" % dict(G=t.name, a=a, inv="self.inv()," if not t.state else "self.inv(), self.%s == (*old(self)).%s," % (t.rt, t.rt))
    o.append("""@@impl %(p)s | Deserialize | %(ty)s
@extra
    open spec fn dec(pre: %(V)s, s: Seq<u8>) -> Option<(%(V)s, Seq<u8>)> { %(dec)s }
    proof fn dec_law(pre: %(V)s, s: Seq<u8>) { assert(s.skip(s.len() as int) =~= Seq::<u8>::empty()); }
@fn merge [C03,C06,C07,C08,C09,C19%(c13)s]
%(attr)s@start
%(start)s
%(mid)s%(lo)s
@@end
""" % dict(p=t.path, ty=t.ty(), V=V, dec=dec, c13=",C13" if t.state else "", attr='@attr #[verifier::loop_isolation(true)]\n' if t.is_enum else '', start=start, mid=mid, lo=lo))
    # Round trip.
    if t.is_enum:
        rt = "match v { %s } assert(Self::enc(v) + tail =~= Self::enc(v)); assert(tail =~= Seq::<u8>::empty());" % " ".join("""%sV::%s(x) => {
            %s_rt%s(x);
            let e = %s_enc%s(x);
            lemma_u32_enc(%d, e);
            assert(Self::enc(v) == varint(%d) + e);
            assert(Self::dec(Self::dv(), Self::enc(v)) == Some((v, Seq::<u8>::empty())));
        }""" % (t.name, var, gname(t, var), a, gname(t, var), a, tag, tag) for var, tag, _, _ in t.groups)
        empty = " ".join("lemma_u32_enc(%d, Seq::empty());" % tag for _, tag, _, _ in t.groups)
    else:
        rt = "%s_rt%s(v); assert(Self::enc(v) + tail =~= Self::enc(v)); assert(tail =~= Seq::<u8>::empty());" % (t.name, a)
        empty = ""
    o.append("""impl%(grt)s RoundTrip for %(ty)s {
    proof fn rt_law(v: %(V)s, tail: Seq<u8>) { %(rt)s }
    proof fn omit_default(v: %(V)s) { }
    proof fn empty_law(v: %(V)s) { %(empty)s }
    proof fn local_law(pre: %(V)s, s: Seq<u8>, t: Seq<u8>) { }
}
""" % dict(grt=t.g("RoundTrip"), ty=t.ty(), V=V, rt=rt, empty=empty))
    if t.state:
        o.append(state(t, V, dvx))
    return "\n".join(o)


def app_fields(t, var, fields, wrap, path, deep="None"):
    G = gname(t, var)
    out = ""
    for f in fields:
        upd = "%sV { %s: x%s }" % (G, fname(f), ", ..v" if len(fields) > 1 else "")
        if st_(f):
            out += "if %s[0] == %d { match <%s as State>::app(v.%s, %s.skip(1), kind, key, s) { None => None, Some(x) => Some(%s) } } else " % (path, f[1], f[2], fname(f), path, wrap(upd))
        else:
            out += "if %s[0] == %d { Some(%s) } else " % (path, f[1], wrap("v"))
    return out + "{ None }"


def fit_fields(t, var, fields, path):
    out = ""
    for f in fields:
        if st_(f):
            out += "if %s[0] == %d { <%s as State>::fits(v.%s, %s.skip(1), kind, key) } else " % (path, f[1], f[2], fname(f), path)
        else:
            out += "if %s[0] == %d { true } else " % (path, f[1])
    return out + "{ false }"


def state(t, V, dvx):
    o = []
    a = t.ga()
    if not t.is_enum:
        fields = t.groups[0][2]
        app = "if path.len() > 0 { %s }" % app_fields(t, None, fields, lambda x: x, "path")
        fits = "if path.len() > 0 { %s }" % fit_fields(t, None, fields, "path")
        laws = " ".join("<%s as State>::app_law(v.%s, path.skip(1), kind, key, s);" % (f[2], fname(f)) for f in fields if st_(f))
    else:
        app = "if path.len() > 0 { match v { %s } }" % " ".join(
            "%sV::%s(v) => if path[0] == %d && path.len() > 1 { let p = path.skip(1); %s } else { None }," % (t.name, var, tag, app_fields(t, var, fields, lambda x: "%sV::%s(%s)" % (t.name, var, x), "p")) for var, tag, fields, _ in t.groups)
        fits = "if path.len() > 0 { match v { %s } }" % " ".join(
            "%sV::%s(v) => if path[0] == %d && path.len() > 1 { let p = path.skip(1); %s } else { false }," % (t.name, var, tag, fit_fields(t, var, fields, "p")) for var, tag, fields, _ in t.groups)
        laws = "if path.len() > 0 { let p = path.skip(1); match v { %s } }" % " ".join("%sV::%s(v) => { %s }" % (
            t.name, var, " ".join("<%s as State>::app_law(v.%s, p.skip(1), kind, key, s);" % (f[2], fname(f)) for f in fields if st_(f))) for var, _, fields, _ in t.groups)
    if t.is_enum:
        rt = "match *self { %s }" % " ".join("%s => _r.at()," % (
            ("%s::%s(%s)" % (t.name, var, ", ".join(["_"] * (len(fields) + (1 if cached else 0)) + ["_r"]))) if fields and isinstance(fields[0][0], int) else "%s::%s { %s: _r, .. }" % (t.name, var, t.rt)) for var, tag, fields, cached in t.groups)
        home = "self.rt_at().parent()"
    else:
        rt = home = "self.%s.at()" % t.rt
    dft = "" if t.is_enum else "handle_update is_root "
    o.append("""@@impl %(p)s | State | %(ty)s
@default %(dft)sis_child
@extra
    open spec fn app(v: %(V)s, path: Seq<u32>, kind: LogEntryKind, key: Option<u32>, s: Seq<u8>) -> Option<%(V)s> {
        %(app)s else { match kind { LogEntryKind::Update => val(Self::dec(Self::dv(), s)), _ => None } }
    }
    open spec fn fits(v: %(V)s, path: Seq<u32>, kind: LogEntryKind, key: Option<u32>) -> bool {
        %(fits)s else { kind is Update }
    }
    open spec fn tracked() -> bool { true }
    open spec fn rt_at(&self) -> At { %(rt)s }
    open spec fn home(&self) -> At { %(home)s }
    proof fn app_law(v: %(V)s, path: Seq<u32>, kind: LogEntryKind, key: Option<u32>, s: Seq<u8>) { %(laws)s }
    proof fn update_law(v: %(V)s, s: Seq<u8>) { }
    proof fn home_law(&self, at: At) { %(hl)s }
@fn with_runtime [C13,C19]
@fn runtime [C13]
@fn set_runtime [C13,C19]
@start
    broadcast use attached_inv;
@fn is_root [C14]
@fn is_child [C14]
@fn handle_update [C11,C14]
@start
    broadcast use attached_inv;
@fn handle [C11,C14]
@start
    broadcast use moved_refl, attached_inv;
@@end
""" % dict(p=t.path, ty=t.ty(), dft=dft, V=V, app=app, fits=fits, rt=rt, home=home, laws=laws, hl="if self.rt_at().path.len() > 0 { lemma_at_child(self.home(), self.rt_at().path.last()); } lemma_at_children(at);" if t.is_enum else ""))
    # What is logged for a field is logged for the value.
    for var, tag, fields, cached in t.groups:
        G = gname(t, var)
        for f in fields:
            if not st_(f):
                continue
            upd = lambda x: "%sV { %s: %s%s }" % (G, fname(f), x, ", ..v" if len(fields) > 1 else "")
            w = (lambda x: "%sV::%s(%s)" % (t.name, var, x)) if var else (lambda x: x)
            GV = G + "V" + t.vg()
            o.append("""
pub proof fn %(G)s_child_%(f)s%(g)s(v: %(GV)s, prefix: Seq<u32>, es: Seq<LogEntryV>)
    requires act::<%(T)s>(v.%(f)s, %(pp)s, es) is Some,
    ensures
[C11] act::<%(ty)s>(%(wv)s, prefix, es) == Some(%(res)s),
    decreases es.len(),
{
    if es.len() == 0 {
        assert(%(updv)s == v);
    } else {
        let p = es[0].path();
        let n = prefix.len() as int;
        lemma_below%(k)s(p, prefix, %(tags)s);
        let x = <%(T)s as State>::app(v.%(f)s, p.skip(n + %(k)s), es[0].kind(), es[0].key(), es[0].payload()).unwrap();
        %(G)s_child_%(f)s%(a)s(%(updx)s, prefix, es.skip(1));
    }
}

/// C11: a change of a field, logged as the field's, is a change of the value.
pub proof fn %(G)s_did_%(f)s%(g)s(w0: World, w1: World, at: At, v: %(GV)s, x: <%(T)s as Viewed>::V)
    requires did::<%(T)s>(w0, w1, %(atp)s, v.%(f)s, x),
    ensures
[C11] did::<%(ty)s>(w0, w1, at, %(wv)s, %(wx)s),
{
    let es = choose|es: Seq<LogEntryV>| #[trigger] said(w0, w1, at.log, es) && act::<%(T)s>(v.%(f)s, %(atp)s.path, es) == Some(x);
    %(G)s_child_%(f)s%(a)s(v, at.path, es);
}
""" % dict(G=G, f=fname(f), g=t.g("State"), GV=GV, T=f[2], a=a, ty=t.ty(), wv=w("v"), k=2 if var else 1,
           pp=("prefix.push(%du32).push(%du32)" % (tag, f[1])) if var else "prefix.push(%du32)" % f[1],
           atp=("at.child(%du32).child(%du32)" % (tag, f[1])) if var else "at.child(%du32)" % f[1],
           tags=("%du32, %du32" % (tag, f[1])) if var else "%du32" % f[1],
           res=w(upd("act::<%s>(v.%s, %s, es).unwrap()" % (f[2], fname(f), ("prefix.push(%du32).push(%du32)" % (tag, f[1])) if var else "prefix.push(%du32)" % f[1]))),
           updv=upd("v.%s" % fname(f)), updx=upd("x"), wx=w(upd("x"))))
        # A default value can be logged.
    for var, tag, fields, cached in t.groups:
        G = gname(t, var)
        if any(f[2] in t.gens or f[2] in ALL and ALL[f[2]].is_enum for f in fields):
            continue  # its default value is not written as nothing
        dv = ("%sV::%s(%s_dv%s())" % (t.name, var, G, a)) if var else "%s_dv%s()" % (G, a)
        o.append("""
pub proof fn %(G)s_dv_ready%(g)s()
    ensures
[C11] ready::<%(ty)s>(%(dv)s),
        %(G)s_enc%(a)s(%(G)s_dv%(a)s()).len() == 0,
{
    %(sub)s
    %(len)s
}
""" % dict(G=G, g=t.g("State"), ty=t.ty(), dv=dv, a=a, len="lemma_u32_enc(%d, Seq::empty()); lemma_varint_len(%d); assert(%s_enc%s(%s_dv%s()) =~= Seq::<u8>::empty());" % (tag, tag, G, a, G, a) if var else "assert(%s_enc%s(%s_dv%s()) =~= Seq::<u8>::empty());" % (G, a, G, a),
           sub=" ".join("%s_dv_ready();" % gname(ALL[f[2]], ALL[f[2]].default_variant) for f in fields if f[2] in ALL)))
    return "\n".join(o)


def setters(t, snake):
    o = []
    a = t.ga()
    for var, tag, fields, cached in t.groups:
        G = gname(t, var)
        for f in fields:
            nm = "set_" + (snake(var) + "_" if var else "") + fname(f)
            oldv = "(*old(self)).v()"
            base = "(match %s { %sV::%s(x) => x, _ => %s_dv%s() })" % (oldv, t.name, var, G, a) if var else oldv
            w = (lambda x: "%sV::%s(%s)" % (t.name, var, x)) if var else (lambda x: x)
            new = lambda x: w("%sV { %s: %s%s }" % (G, fname(f), x, ", ..%s" % base if len(fields) > 1 else ""))
            if not st_(f):
                o.append("@fn %s [C19]\n    requires (*old(self)).inv(), value.inv(),\n    ensures\n[C19] (*r).v() == (%s),\n[C13] (*r).inv() && (*r).home() == (*old(self)).home(),\n[C19] *final(self) == *final(r)," % (nm, new("value.v()")))
                continue
            at = "(*old(self)).home()" + (".child(%du32).child(%du32)" % (tag, f[1]) if var else ".child(%du32)" % f[1])
            entry = lambda x: "e_update(%s.path, <%s as Serialize>::enc(%s))" % (at, f[2], x)
            if var:
                log = lambda x: "if %s is %s { seq![%s] } else { seq![e_update((*old(self)).home().path, <%s as Serialize>::enc(%s)), %s] }" % (oldv, var, entry(x), t.ty(), w("%s_dv%s()" % (G, a)), entry(x))
            else:
                log = lambda x: "seq![%s]" % entry(x)
            post = lambda x: "[C11,C19] (*r).v() == (%s)" % new(x)
            common = """[C13] (*r).inv() && (*r).home() == (*old(self)).home(),
[C11] did::<%s>(*old(w), *final(w), (*old(self)).home(), %s, (*r).v()),
[C19] *final(self) == *final(r),
@subst . unwrap () => . or_refused ()""" % (t.ty(), oldv)
            startp = """@start
    broadcast use attached_inv;
    let ghost home = self.home();
    let ghost v0 = self.v();"""
            if var:
                startp += """
    let ghost b0 = match v0 { %(E)sV::%(var)s(x) => x, _ => %(G)s_dv%(a)s() };
    proof { lemma_at_child(home, %(tag)du32); lemma_at_children(home); %(ready)slemma_did_nothing::<%(ty)s>(*w, *w, home, v0); }
    let ghost w0 = *w;""" % dict(ready="%s_dv_ready%s(); " % (G, a) if not t.gens else "", E=t.name, var=var, G=G, a=a, tag=tag, ty=t.ty())
            done = """
    proof {
        lemma_did_update::<%(T)s>(%(w1)s, *w, %(at)s, %(old)s, %(x)s);
        %(G)s_did_%(f)s%(a)s(%(w1)s, *w, home, %(v)s, %(x)s);
        %(more)s
    }"""
            if var:
                sw = "e_update(home.path, <%s as Serialize>::enc(%s))" % (t.ty(), w("b0"))
                done = """
    proof {
        lemma_two::<%(ty)s, %(T)s>(w0, w1, *w, home, %(at)s, v0 is %(var)s, v0, %(b0)s, %(x)s);
        lemma_did_update::<%(T)s>(w1, *w, %(at)s, %(old)s, %(x)s);
        %(G)s_did_%(f)s%(a)s(w1, *w, home, %(v)s, %(x)s);
        %(more)s
    }""".replace("%(ty)s", t.ty()).replace("%(var)s", var).replace("%(b0)s", w("b0"))
            def fin(x, w1):
                return done % dict(T=f[2], w1=w1, at="home" + at[len("(*old(self)).home()"):], old=("b0." if var else "v0.") + fname(f), x=x, G=G, f=fname(f), a=a, v="b0" if var else "v0",
                                   more="lemma_did_more::<%s>(w0, w1, *w, home, v0, %s, %s);" % (t.ty(), w("b0"), w("%sV { %s: %s%s }" % (G, fname(f), x, ", ..b0" if len(fields) > 1 else ""))) if var else "")
            dready = "\n        ready::<%s>(%s)," % (t.ty(), w("%s_dv%s()" % (G, a))) if t.gens and var else ""
            mid = ""
            if var:
                # After the switch, if there was one.
                mid = """
@before let runtime#%d
    let ghost w1 = *w;
    proof { if !(v0 is %s) { lemma_did_update::<%s>(w0, w1, home, v0, %s); } }"""
            o.append("""@fn %(nm)s [C11,C13,C16,C19]
@world
    requires
        (*old(self)).inv(),
        ready::<%(T)s>(value.v()),%(dready)s
    ensures
%(post)s,
[C11,C13] said(*old(w), *final(w), (*old(self)).home().log, %(log)s),
%(common)s
%(startp)s
    let ghost x0 = value.v();%(mid)s
@before log_update_child
    proof {
[C16] assert(self.v() == %(still)s);
    }
@after log_update_child%(fin)s""" % dict(dready=dready, nm=nm, T=f[2], post=post("value.v()"), log=log("value.v()"), common=common, startp=startp,
                                         mid=mid % (1, var, t.ty(), w("b0")) if var else "", still=w("b0") if var else "v0", fin=fin("x0", "w1" if var else "*old(w)")))
            o.append("""@fn %(nm)s_with [C11,C12,C13,C16,C19]
@world
    requires
        (*old(self)).inv(),%(dready)s
        (*old(w)).at((*old(self)).home().log).paused < u32::MAX,
        forall|r: Runtime| #![trigger get_value.requires((r,))] r.at() == %(at)s ==> get_value.requires((r,)),
        forall|r: Runtime, x: %(T)s| #![trigger get_value.ensures((r,), x)] r.at() == %(at)s && get_value.ensures((r,), x) ==> x.attached(r.at()) && ready::<%(T)s>(x.v()),
    ensures
[C11,C12,C13,C19] exists|n: Runtime, x: %(T)s| {
[C13]         &&& n.at() == %(at)s
[C19]         &&& #[trigger] get_value.ensures((n,), x)
[C11,C19]         &&& (*r).v() == (%(new)s)
[C11,C12]         &&& said(*old(w), *final(w), (*old(self)).home().log, %(log)s)
[C11]     },
%(common)s
%(startp)s%(mid)s
@before log_update_child
    let ghost x0 = value.v();
    proof {
[C16] assert(self.v() == %(still)s);
[C12] assert(quiet(%(w1)s, *w)) by { assert forall|l: int| #[trigger] (*w).at(l) == (%(w1)s).at(l) by {} }
    }
@after log_update_child%(fin)s""" % dict(dready=dready, nm=nm, T=f[2], at=at, new=new("x.v()"), log=log("x.v()"), common=common, startp=startp,
                                         mid=mid % (1, var, t.ty(), w("b0")) if var else "", still=w("b0") if var else "v0", w1="w1" if var else "*old(w)", fin=fin("x0", "w1" if var else "*old(w)")))
    return "\n".join(o)


LOG = T("LogEntry", [
    ("Update", 0, [("path", 0, "Vec<u32>", 1, 1), ("value", 1, "Bytes", 1, 1)], True),
    ("ListPush", 8, [("path", 0, "Vec<u32>", 1, 1), ("item", 1, "Bytes", 1, 1)], True),
    ("ListPop", 9, [("path", 0, "Vec<u32>", 1, 1)], True),
    ("MapRemove", 12, [("path", 0, "Vec<u32>", 1, 1), ("key", 1, "u32", 1, 1)], True),
], ctor="empty", path="log::entry::_IMPL_STEIT_FOR_LOG_ENTRY", setters=False)

SCHEMA = [
    T("Empty", [(None, 0, [], True)]),
    T("Inner", [(None, 0, [("a", 0, "i32", 1, 1), ("b", 1, "bool", 1, 1)], True)]),
    T("Choice", [
        ("One", 5, [(0, 0, "u32", 1, 1), (1, 1, "Inner", 1, 1)], True),
        ("Zero", 0, [], True),
        ("Many", 200, [("xs", 0, "Vec<Inner>", 1, 1), ("y", 3, "i8", 1, 1)], False),
    ], default_variant="Zero"),
    T("Msg", [(None, 0, [("size", 2, "u64", 1, 1), ("name", 1, "String", 1, 1), ("list", 536870911, "Vec<Inner>", 1, 1), ("opt", 16, "Option<i16>", 1, 0),
                         ("one", 15, "Box<Inner>", 0, 0), ("choice", 7, "Choice", 1, 1)], True)], cache="my_cache"),
    T("Bare", [(None, 0, [(0, 3, "u8", 1, 1), (1, 0, "Vec<u32>", 1, 1)], False)], ctor="create"),
    T("Pair", [(None, 0, [("left", 0, "A", 1, 1), ("right", 1, "B", 1, 1)], True)], gens=["A", "B"]),
]

STATES = [
    T("Spot", [(None, 0, [("x", 0, "i32", 1, 1), ("z", 300, "u64", 1, 1)], True)], state=True),
    T("Mode", [
        ("Idle", 0, [], True),
        ("Fly", 9, [("to", 0, "Spot", 1, 1), ("speed", 1, "u8", 1, 1)], True),
        ("Dock", 2, [(0, 7, "List<Spot>", 1, 1)], False),
    ], state=True),
    T("Ship", [(None, 0, [("runtime", 1, "u32", 1, 1), ("spot", 0, "Spot", 1, 1), ("cargo", 2, "List<u16>", 1, 1), ("bays", 3, "Map<u8, Spot>", 1, 1), ("mode", 4, "Mode", 1, 1),
                          ("note", 6, "String", 1, 1, False)], True)], state=True, rt="my_rt"),
]

MAYBE = T("Maybe", [("None", 0, [], False), ("Some", 1, [("value", 0, "T", 1, 1)], True)], gens=["T"], path="types::maybe::_IMPL_STEIT_FOR_MAYBE", state=True)

MAYBE_OWN = """
@@impl types::maybe | | Maybe<T>
@generics <T: State>
@props C19,C13
@skip to_option
@fn some [C13,C19]
    ensures
[C19] r.v() == MaybeV::Some(Maybe_SomeV { value: value.v() }),
[C13] r.inv() && r.attached(runtime.at()),
@start
    proof { lemma_at_children(runtime.at()); }
@fn none [C13,C19]
    ensures
[C19] r.v() == MaybeV::<T::V>::None(Maybe_NoneV { }),
[C13] r.inv() && r.attached(runtime.at()),
@fn from_option [C13,C19]
    ensures
[C19] r.v() == (match option { Some(x) => MaybeV::Some(Maybe_SomeV { value: x.v() }), None => MaybeV::None(Maybe_NoneV { }) }),
[C13] r.inv() && r.attached(runtime.at()),
@fn is_some [C19]
    ensures
[C19] r == (self.v() is Some),
@fn is_none [C19]
    ensures
[C19] r == (self.v() is None),
@@end

@@impl types::maybe | | Maybe<T>
@generics <T: State + Copy>
@props C19
@only to_option
@fn to_option [C19]
    ensures
[C19] (r matches Some(x) ==> self.v() == MaybeV::Some(Maybe_SomeV { value: x.v() })),
[C19] r is None ==> self.v() is None,
@@end
"""

STATE_LEMMAS = """
// Places.

pub proof fn lemma_at_child(at: At, n: u32)
    ensures at.child(n).path.len() == at.path.len() + 1, at.child(n).parent() == at, at.child(n).path.last() == n,
{
    assert(at.path.push(n).drop_last() =~= at.path);
}

pub broadcast proof fn at_child(at: At, n: u32)
    ensures (#[trigger] at.child(n)).path.len() == at.path.len() + 1, at.child(n).parent() == at, at.child(n).path.last() == n,
{
    lemma_at_child(at, n);
}

pub proof fn lemma_at_children(at: At)
    ensures forall|n: u32| (#[trigger] at.child(n)).path.len() == at.path.len() + 1 && at.child(n).parent() == at,
{
    assert forall|n: u32| (#[trigger] at.child(n)).path.len() == at.path.len() + 1 && at.child(n).parent() == at by { lemma_at_child(at, n); }
}

pub proof fn lemma_below1(p: Seq<u32>, prefix: Seq<u32>, t: u32)
    requires starts(p, prefix.push(t)),
    ensures
        starts(p, prefix),
        p.skip(prefix.len() as int).len() > 0,
        p.skip(prefix.len() as int)[0] == t,
        p.skip(prefix.len() as int).skip(1) == p.skip(prefix.push(t).len() as int),
        prefix.push(t).len() == prefix.len() + 1,
{
    let n = prefix.len() as int;
    assert(p.take(n) =~= p.take(n + 1).take(n));
    assert(prefix.push(t).take(n) =~= prefix);
    assert(p.skip(n)[0] == p.take(n + 1)[n]);
    assert(p.skip(n).skip(1) =~= p.skip(n + 1));
}

pub proof fn lemma_below2(p: Seq<u32>, prefix: Seq<u32>, t: u32, u: u32)
    requires starts(p, prefix.push(t).push(u)),
    ensures
        starts(p, prefix),
        p.skip(prefix.len() as int).len() > 1,
        p.skip(prefix.len() as int)[0] == t,
        p.skip(prefix.len() as int).skip(1)[0] == u,
        p.skip(prefix.len() as int).skip(1).skip(1) == p.skip(prefix.push(t).push(u).len() as int),
        prefix.push(t).push(u).len() == prefix.len() + 2,
{
    lemma_below1(p, prefix.push(t), u);
    lemma_below1(p, prefix, t);
}
"""

STATE_LEMMAS += """
/// A switch of variants (unless there already), then a change below.
pub proof fn lemma_two<T: State, X: State>(w0: World, w1: World, w: World, home: At, at: At, there: bool, v0: T::V, b: T::V, x: X::V)
    requires
        there ==> w0 == w1,
        !there ==> said(w0, w1, home.log, seq![e_update(home.path, T::enc(b))]),
        said(w1, w, home.log, seq![e_update(at.path, X::enc(x))]),
    ensures
[C11]     said(w0, w, home.log, if there { seq![e_update(at.path, X::enc(x))] } else { seq![e_update(home.path, T::enc(b)), e_update(at.path, X::enc(x))] }),
{
    if !there {
        let a = seq![e_update(home.path, T::enc(b))];
        let c = seq![e_update(at.path, X::enc(x))];
        lemma_said_more(w0, w1, w, home.log, a, c);
        assert(a + c =~= seq![e_update(home.path, T::enc(b)), e_update(at.path, X::enc(x))]);
    }
}
"""

HEAD = "// ---------------------------------------------------------------------------------------------\n// %s (written by tools/gen_messages.py).\n\n"


def main():
    open(os.path.join(OUT, "61_entry.vt"), "w").write(HEAD % "Log entries" + "@@enum log::entry::LogEntry\n\n" + "pub mod log_entry {\nuse super::*;\nbroadcast use {moved_refl, moved_trans, tdec_len};\n" + message(LOG) + "}\npub use log_entry::*;\n")
    o = [HEAD % "The messages of /verif/schema", "pub mod schema_decl {\nuse super::*;\npub type String = Text;\n"]
    for t in SCHEMA:
        o.append("@@%s %s" % ("enum" if t.is_enum else "struct", t.name))
    o.append("}\npub use schema_decl::{%s};" % ", ".join(t.name for t in SCHEMA))
    for t in SCHEMA:
        o.append("pub mod m_%s {\nuse super::*;\nuse super::schema_decl::String;\nbroadcast use {moved_refl, moved_trans, tdec_len};\n%s}\npub use m_%s::*;\n" % (t.name.lower(), message(t), t.name.lower()))
    open(os.path.join(OUT, "62_schema.vt"), "w").write("\n".join(o))
    o = [HEAD % "The states of /verif/schema", STATE_LEMMAS, "pub mod states_decl {\nuse super::*;\npub type String = Text;\n"]
    for t in STATES:
        o.append("@@%s %s" % ("enum" if t.is_enum else "struct", t.name))
    o.append("}\npub use states_decl::{%s};" % ", ".join(t.name for t in STATES))
    for t in STATES:
        o.append("pub mod s_%s {\nuse super::*;\nuse super::schema_decl::String;\nbroadcast use {moved_refl, moved_trans, tdec_len, at_child};\n%s}\npub use s_%s::*;\n" % (t.name.lower(), message(t), t.name.lower()))
    o2 = [HEAD % "Maybe", "@@enum types::maybe::Maybe\n", "pub mod s_maybe {\nuse super::*;\nbroadcast use {moved_refl, moved_trans, tdec_len, at_child};\n%s%s}\npub use s_maybe::*;\n" % (message(MAYBE), MAYBE_OWN)]
    open(os.path.join(OUT, "75_maybe.vt"), "w").write("\n".join(o2))
    open(os.path.join(OUT, "74_states.vt"), "w").write("\n".join(o))


main()
