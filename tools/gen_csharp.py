#!/usr/bin/env python3
"""Writes schema_cs/src/lib.rs: message definitions of many forms; contracts/96_meta.vt: how the metadata is to
mirror them; and harness/src/csharp_defs.rs: what C# is to make of them (development helper).

The expectation is computed here, from the definition as it is written, independently of the derive macro."""
import os, random, sys

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(HERE, "tools"))
from vt import lists
R = random.Random(20)
PRIMS = [("u8", "Byte"), ("u16", "UInt16"), ("u32", "UInt32"), ("u64", "UInt64"), ("i8", "SByte"), ("i16", "Int16"),
         ("i32", "Int32"), ("i64", "Int64"), ("bool", "Boolean"), ("String", "String")]
PARAMS = ["A", "B", "C", "T", "K"]
NAMES = ["a", "b_c", "value", "some_value", "x1", "x_2", "at_2nd", "n2n", "_lead", "trail_", "dou__ble", "camelCase", "Upper", "r#type", "r#in", "é_a", "a_ß",
         "count_of_3d", "i", "id", "route_", "p9_q", "z"]
CS = ["Renamed", "renamed_field", "x_1st", "KeepIt", "aBC", "under_Score", "v2_3x", "_q"]


def camel(s):
    if s.startswith("r#"):
        s = s[2:]
    out, up = "", True
    for c in s:
        if c == "_":
            up = True
        elif up:
            out += c.upper()
            up = False
        else:
            out += c
    return out


class Def:
    pass


DEFS = []


def tags(n):
    r = set()
    while len(r) < n:
        r.add(R.choice([R.randrange(4), R.randrange(20), R.randrange(130), R.randrange(1 << 14), R.randrange(1 << 29), (1 << 29) - 1, 127, 128]))
    r = list(r)
    R.shuffle(r)
    return r


# A type: ("prim", rust, cs) ("vec", t) ("opt", t) ("box", t) ("arr", t, n) ("bytes",) ("param", "A") ("msg", def, args) ("list", t) ("map", key, t) ("maybe", t)
def rust(t, me=None):
    k = t[0]
    if k == "prim":
        return t[1]
    if k == "bytes":
        return R.choice(["Bytes", "steit::types::Bytes"])
    if k == "param":
        return t[1]
    if k == "paren":
        return "(%s)" % rust(t[1])
    if k == "vec":
        return R.choice(["Vec<%s>", "std::vec::Vec<%s>"]) % rust(t[1])
    if k == "opt":
        return R.choice(["Option<%s>", "std::option::Option<%s>"]) % rust(t[1])
    if k == "box":
        return R.choice(["Box<%s>", "std::boxed::Box<%s>"]) % rust(t[1])
    if k == "arr":
        return "[%s; %d]" % (rust(t[1]), t[2])
    if k == "list":
        return "List<%s>" % rust(t[1])
    if k == "map":
        return "Map<%s, %s>" % (t[1], rust(t[2]))
    if k == "maybe":
        return "Maybe<%s>" % rust(t[1])
    if k == "msg":
        n = R.choice(["", "", "self::", "crate::"]) + t[1].rust
        return n + ("<%s>" % ", ".join(rust(a) for a in t[2]) if t[2] else "")
    raise Exception(k)


def cs(t):
    k = t[0]
    if k == "prim":
        return t[2]
    if k == "bytes":
        return "Bytes"
    if k == "param":
        return t[1]
    if k in ("box", "paren"):
        return cs(t[1])
    if k in ("vec", "arr"):
        return "Vector<%s>" % cs(t[1])
    if k == "opt":
        return "Option<%s>" % cs(t[1])
    if k == "list":
        return "StateList<%s>" % cs(t[1])
    if k == "map":
        return "StateMap<%s>" % cs(t[2])
    if k == "maybe":
        return "Maybe<%s>" % cs(t[1])
    if k == "msg":
        return t[1].cs + ("<%s>" % ", ".join(cs(a) for a in t[2]) if t[2] else "")
    raise Exception(k)


def subst(t, m):
    k = t[0]
    if k == "param":
        return m[t[1]]
    if k in ("box", "paren", "vec", "opt", "list", "maybe"):
        return (k, subst(t[1], m))
    if k == "arr":
        return (k, subst(t[1], m), t[2])
    if k == "map":
        return (k, t[1], subst(t[2], m))
    if k == "msg":
        return (k, t[1], [subst(a, m) for a in t[2]])
    return t


def messages(t, seen, out):
    key = repr(name_of(t))
    if key in seen:
        return
    seen.add(key)
    k = t[0]
    if k in ("box", "paren", "vec", "opt", "list", "maybe", "arr"):
        if k == "maybe":
            out.add("Maybe")
        messages(t[1], seen, out)
    elif k == "map":
        messages(t[2], seen, out)
    elif k == "msg":
        d = t[1]
        out.add(d.cs)
        m = dict(zip(d.params, t[2]))
        for _, _, ft, _ in d.all_fields:
            messages(subst(ft, m), seen, out)


def name_of(t):
    if t[0] == "msg":
        return ("msg", t[1].rust, [name_of(a) for a in t[2]])
    return tuple(name_of(x) if isinstance(x, tuple) else x for x in t)


def a_type(params, state, depth, me=None, inner=False):
    old = [d for d in DEFS if (d.state or not state)]
    for _ in range(100):
        k = R.choice(["prim"] * 4 + ["bytes", "param", "param", "paren", "vec", "opt", "box", "arr", "list", "map", "maybe", "msg", "msg", "msg", "me"])
        if k == "prim":
            return ("prim",) + R.choice(PRIMS if not state else PRIMS[:9])
        if k == "bytes" and not state:
            return ("bytes",)
        if k == "param" and params:
            return ("param", R.choice(params))
        if k == "me" and me and not inner and not state:
            return ("opt", ("box", ("msg", me, [("param", p) for p in params])))
        if k == "msg" and old:
            d = R.choice(old[-12:])
            if d.params and depth <= 0:
                continue
            args = [a_type(params if state or not d.state else [], state or d.state, depth - 1, me, True) for _ in d.params]
            return ("msg", d, args)
        if depth <= 0:
            continue
        if k == "paren" and not state:
            return ("paren", a_type(params, state, depth - 1, me, True))
        if k in ("vec", "opt", "arr") and not state:
            t = a_type(params, state, depth - 1, me, True)
            if k == "arr":
                if not simple_default(t):
                    continue
                return ("arr", t, R.choice([1, 2, 4]))
            return (k, t)
        if k == "box":
            return ("box", a_type(params, state, depth - 1, me, True))
        if k == "list" and state:
            return ("list", a_type(params, True, depth - 1, me, True))
        if k == "map" and state:
            return ("map", R.choice(["u8", "u16", "u32"]), a_type(params, True, depth - 1, me, True))
        if k == "maybe" and state:
            return ("maybe", a_type(params, True, depth - 1, me, True))
    return ("prim", "u8", "Byte")


def simple_default(t):
    return t[0] in ("prim", "vec", "opt", "bytes")


def fields(n, params, state, me, raw=True):
    r = []
    pool = [x for x in NAMES if raw or not x.startswith('r#')]
    names, csn = R.sample(pool, n), R.sample(CS, min(n, len(CS)))
    used = set()
    for i, tag in enumerate(tags(n)):
        t = a_type(params, state, R.choice([0, 1, 2, 3]), me)
        c = csn[i % len(csn)] if R.random() < 0.25 else None
        nm = names[i]
        while camel(c or nm) in used or camel(c or nm) == "":
            nm, c = R.choice(pool), None
        used.add(camel(c or nm))
        r.append([nm, tag, t, c])
    return r


def attr(*xs):
    xs = [x for x in xs if x]
    return "#[steit(%s)]" % ", ".join(xs) if xs else ""


def make(i):
    d = Def()
    d.state = R.random() < 0.3
    d.params = R.sample(PARAMS, R.choice([0, 0, 0, 0, 1, 2, 3]))
    d.enum = R.random() < 0.4
    d.rust = R.choice(["Msg%d", "my_msg_%d", "N%dthing"]) % i
    d.rename = R.choice(["Cs%d", "c_s_%d"]) % i if R.random() < 0.3 else None
    d.cs = d.rename or d.rust
    d.owned = False
    if not d.enum:
        d.kind = R.choice(["named"] * 4 + ["tuple"])
        d.fields = fields(R.choice([0, 1, 2, 3, 5, 8]), d.params, d.state, d)
        d.all_fields = list(d.fields)
    else:
        d.variants = []
        n = R.choice([1, 2, 3, 5])
        vt = tags(n)
        if 0 not in vt:
            vt[R.randrange(n)] = 0
        d.all_fields = []
        for j, tag in enumerate(vt):
            nm = ["One", "TwoThree", "Four4", "Xy", "LastOne"][j]
            c = R.choice(["Other%d", "other_%d"]) % j if R.random() < 0.3 else None
            fs = fields(R.choice([0, 0, 1, 2, 4]), d.params, d.state, d, False)
            d.variants.append((nm, tag, c, R.choice(["named", "tuple"]), fs))
            d.all_fields += fs
    # Every parameter is used.
    used = repr([name_of(f[2]) for f in d.all_fields if "'msg', '%s'" % d.rust not in repr(name_of(f[2]))])
    missing = [p for p in d.params if "('param', '%s')" % p not in used]
    if missing:
        if not d.enum:
            tgt = d.fields
        else:
            tgt = d.variants[0][4]
        for p in missing:
            tag = next(x for x in range(1000) if x not in [f[1] for f in tgt])
            f = ["extra_" + p.lower(), tag, ("param", p), None]
            tgt.append(f)
            if not (tgt is d.all_fields):
                d.all_fields.append(f)
    for fs in [d.fields] if not d.enum else [v[4] for v in d.variants]:
        for j, f in enumerate(fs):
            f.append(j)
    return d


def field_rs(f, kind, pub):
    nm, tag, t, c, j = f
    at = ['tag = %d' % tag] + (['csharp_name = "%s"' % c] if c else [])
    R.shuffle(at)
    return "%s %s%s" % (attr(*at), "" if kind == "tuple" else "%s%s: " % (pub, nm), ("%s%s" % (pub, rust(t))) if kind == "tuple" else rust(t))


def expected(f, kind):
    nm, tag, t, c, j = f
    n = camel(c or (("f%d" % j) if kind == "tuple" else nm))
    return "f(%d, \"%s\", \"%s\")" % (tag, n, cs(t))


def generics(d):
    if not d.params:
        return ""
    return "<%s>" % ", ".join("%s: %s" % (p, "State" if d.state else "HasWireType") for p in d.params)



# ---------------------------------------------------------------------------------------------
# What the description of a definition is to be.


def plain(t):
    """The type, with plain names."""
    k = t[0]
    if k == "prim" or k == "param":
        return t[1]
    if k == "bytes":
        return "Bytes"
    if k == "paren":
        return plain(t[1])
    if k in ("vec", "opt", "box", "list", "maybe"):
        return "%s<%s>" % (dict(vec="Vec", opt="Option", box="Box", list="List", maybe="Maybe")[k], plain(t[1]))
    if k == "arr":
        return "[%s; %d]" % (plain(t[1]), t[2])
    if k == "map":
        return "Map<%s, %s>" % (t[1], plain(t[2]))
    if k == "msg":
        return t[1].rust + ("<%s>" % ", ".join(plain(a) for a in t[2]) if t[2] else "")
    raise Exception(k)


def nm(r, c):
    return 'nm("%s"@, %s)' % (r, 'Some("%s"@)' % c if c else "None")


def ft(t):
    k = t[0]
    if k == "prim":
        return "gtype(t_%s())" % t[1].lower()
    if k == "param":
        return 'GFieldType::TypeParam("%s"@)' % t[1]
    if k == "bytes":
        return 'gtype(GType::Ref(n_bytes(), seq![]))'
    if k == "paren":
        return ft(t[1])
    if k in ("vec", "opt", "box", "list", "maybe", "arr"):
        return "gtype(GType::Ref(n_%s(), seq![%s]))" % (k, ft(t[1]))
    if k == "map":
        return "gtype(GType::Ref(n_map(), seq![gtype(t_%s()), %s]))" % (t[1], ft(t[2]))
    if k == "msg":
        return "gtype(GType::Ref(%s, seq![%s]))" % (nm(t[1].rust, t[1].rename), ", ".join(ft(a) for a in t[2]))
    raise Exception(k)


def g_field(f, kind):
    n, tag, t, c, j = f
    r = "f%d" % j if kind == "tuple" else n.replace("r#", "")
    return "GField { name: %s, ty: %s, tag: %du32 }" % (nm(r, c), ft(t), tag)


def g_struct(name, c, params, fs, kind):
    return "GStruct { name: %s, type_params: seq![%s], fields: seq![%s], builtin: false }" % (
        nm(name, c), ", ".join('"%s"@' % p for p in params), ",\n            ".join(g_field(f, kind) for f in fs))


def contract(d):
    ps = ", ".join("%s: HasLinks" % p for p in d.params)
    me = d.rust + ("<%s>" % ", ".join(d.params) if d.params else "")
    if not d.enum:
        msg = "GMsg::Struct(%s)" % g_struct(d.rust, d.rename, d.params, d.fields, d.kind)
    else:
        vs = ",\n        ".join("GVariant { ty: %s, tag: %du32 }" % (g_struct(nm_, c, [], fs, kind), tag) for nm_, tag, c, kind, fs in d.variants)
        msg = "GMsg::Enum(GEnum { name: %s, type_params: seq![%s], variants: seq![\n        %s], builtin: false })" % (
            nm(d.rust, d.rename), ", ".join('"%s"@' % p for p in d.params), vs)
    links = ", ".join("<%s>::link_()" % plain(f[2]) for f in d.all_fields)
    return """
pub proof fn meta_%s%s()
    ensures
[C20]   <%s>::name_() == %s,
[C20]   <%s>::type_() == GType::Ref(%s, seq![%s]),
[C20]   <%s>::link_() == (GLink { ty: <%s>::type_(), msg: Some(%s) }),
[C20]   <%s>::links_() == nil::<GLink>()%s,
{}
""" % (d.rust, "<%s>" % ps if ps else "", me, nm(d.rust, d.rename), me, nm(d.rust, d.rename), ", ".join("gtype(%s::type_())" % p for p in d.params),
       me, me, msg, me, "".join(".push(<%s>::link_())" % plain(f[2]) for f in d.all_fields))


PRELUDE = r"""
// ---------------------------------------------------------------------------------------------
// C20: the descriptions of messages (`HasMeta`) mirror the definitions (package of its own; written
// by tools/gen_csharp.py from the definitions of /verif/schema_cs, without the derive macro).
//
// The associated constants of the impls are data: `@@metas` makes specification functions of them
// (rule R28), in which references are what they refer to, slices are lists, and the function
// `links` of a description is what it returns.

pub enum WireType { Varint, Sized }
/// A list, last item outermost.
pub ghost enum GList<A> { Nil, Push(Box<GList<A>>, A) }
impl<A> GList<A> {
    pub open spec fn push(self, a: A) -> GList<A> { GList::Push(Box::new(self), a) }
}
pub open spec fn nil<A>() -> GList<A> { GList::Nil }
pub ghost struct GName { pub rust: Seq<char>, pub csharp: Option<Seq<char>> }
pub ghost enum GType { Primitive(GName, WireType), Ref(GName, GList<GFieldType>) }
pub ghost enum GFieldType { Type(Box<GType>), TypeParam(Seq<char>) }
pub ghost struct GField { pub name: GName, pub ty: GFieldType, pub tag: u32 }
pub ghost struct GStruct { pub name: GName, pub type_params: GList<Seq<char>>, pub fields: GList<GField>, pub builtin: bool }
pub ghost struct GVariant { pub ty: GStruct, pub tag: u32 }
pub ghost struct GEnum { pub name: GName, pub type_params: GList<Seq<char>>, pub variants: GList<GVariant>, pub builtin: bool }
pub ghost enum GMsg { Struct(GStruct), Enum(GEnum) }
/// A link, but for where it leads to.
pub ghost struct GLink { pub ty: GType, pub msg: Option<GMsg> }

pub open spec fn gtype(t: GType) -> GFieldType { GFieldType::Type(Box::new(t)) }
pub open spec fn nm(rust: Seq<char>, csharp: Option<Seq<char>>) -> GName { GName { rust, csharp } }
/// What `NameMeta::new` is proved to return (package gen).
pub open spec fn name_new(rust: Seq<char>) -> GName { GName { rust, csharp: None } }

pub trait HasMeta {
    spec fn name_() -> GName;
    spec fn type_() -> GType;
}
pub trait HasLink: HasMeta {
    spec fn link_() -> GLink;
}
pub trait HasLinks: HasLink {
    /// The links that this link leads to.
    spec fn links_() -> GList<GLink>;
}
pub struct Bytes {}
pub struct LogEntry {}
pub struct List<T> { pub x: Option<T> }
pub struct Map<K, V> { pub x: Option<K>, pub y: Option<V> }
pub struct Maybe<T> { pub x: Option<T> }
"""
REST = r"""
pub open spec fn n_bytes() -> GName { nm("Bytes"@, None) }
pub open spec fn n_vec() -> GName { nm("Vec"@, Some("Vector"@)) }
pub open spec fn n_arr() -> GName { nm("Vec"@, Some("Vector"@)) }
pub open spec fn n_opt() -> GName { nm("Option"@, Some("Option"@)) }
pub open spec fn n_box() -> GName { nm("Box"@, Some("Box"@)) }
pub open spec fn n_list() -> GName { nm("List"@, Some("StateList"@)) }
pub open spec fn n_map() -> GName { nm("Map"@, Some("StateMap"@)) }
pub open spec fn n_maybe() -> GName { nm("Maybe"@, None) }
"""

rs = ["//! Message definitions of many forms (written by tools/gen_csharp.py).",
      "#![allow(non_camel_case_types, dead_code)]",
      "use steit::{state::State, steit_derive, types::{Bytes, List, Map, Maybe}, wire_fmt::HasWireType};", ""]
for i in range(70):
    d = make(i)
    d.all_fields = [(f[0], f[1], f[2], f[3]) for f in (d.fields if not d.enum else [f for v in d.variants for f in v[4]])]
    DEFS.append(d)
    rs.append("#[steit_derive(%s)]" % ("State" if d.state else "Serialize, Deserialize"))
    ts = [f[1] for f in d.all_fields] if not d.enum else [v[1] for v in d.variants]
    reserved = [x for x in range(30) if x not in ts][:2] if R.random() < 0.2 else []
    a = attr('csharp_name = "%s"' % d.rename if d.rename else None, "reserved_tags(%s)" % ", ".join(map(str, reserved)) if reserved else None)
    if a:
        rs.append(a)
    if not d.enum:
        if d.kind == "tuple":
            rs.append("pub struct %s%s(%s);" % (d.rust, generics(d), ", ".join(field_rs(f, "tuple", "pub ") for f in d.fields)))
        else:
            rs.append("pub struct %s%s {" % (d.rust, generics(d)))
            rs += ["    %s," % field_rs(f, "named", "pub ") for f in d.fields]
            rs.append("}")
    else:
        rs.append("pub enum %s%s {" % (d.rust, generics(d)))
        for nm_, tag, c, kind, fs in d.variants:
            at = ["tag = %d" % tag] + (['csharp_name = "%s"' % c] if c else [])
            R.shuffle(at)
            body = ", ".join(field_rs(f, kind, "") for f in fs)
            rs.append("    %s\n    %s%s," % (attr(*at), nm_, ("(%s)" if kind == "tuple" else " { %s }") % body))
        rs.append("}")
    rs.append("")
open(os.path.join(HERE, "schema_cs", "src", "lib.rs"), "w").write("\n".join(rs))

out = ["// Written by tools/gen_csharp.py.", "use schema_cs::*;", "use steit::types::{Bytes, List, Map, Maybe};", "", "use crate::csharp::*;", "use crate::run::*;", ""]
out.append("pub fn defined() -> Vec<(&'static str, M)> {\n    vec![")
for d in DEFS:
    ps = ", ".join('"%s"' % p for p in d.params)
    if not d.enum:
        out.append('        ("%s", M::Struct(s("%s", &[%s], vec![%s]))),' % (d.cs, d.cs, ps, ", ".join(expected(f, d.kind) for f in d.fields)))
    else:
        vs = ", ".join("(%d, s(\"%s\", &[], vec![%s]))" % (tag, c or nm_, ", ".join(expected(f, kind) for f in fs)) for nm_, tag, c, kind, fs in d.variants)
        out.append('        ("%s", M::Enum { name: "%s".to_string(), params: vec![%s], variants: vec![%s] }),' % (d.cs, d.cs, ", ".join('"%s".to_string()' % p for p in d.params), vs))
out.append("    ]\n}\n")
out.append("pub fn families() -> Vec<Fam> {\n    vec![")
for d in DEFS:
    args = [a_type([], d.state, 1, None, True) for _ in d.params]
    t = ("msg", d, args)
    names = set()
    messages(t, set(), names)
    names = [d.cs] + sorted(names - {d.cs})
    out.append("        once(\"generate<%s>\", |_: &mut Cx| reach::<%s>(&[%s]))," % (d.rust, plain(t), ", ".join('"%s"' % n for n in names)))
out.append("    ]\n}")
open(os.path.join(HERE, "harness", "src", "csharp_defs.rs"), "w").write("\n".join(out) + "\n")

vt = [PRELUDE]
for d in DEFS:
    vt.append("pub struct %s%s { %s }" % (d.rust, "<%s>" % ", ".join(d.params) if d.params else "", ", ".join("pub x%s: Option<%s>" % (p.lower(), p) for p in d.params)))
vt.append("\n@@metas\n")
vt.append(REST)
WIDE = dict(String="Sized")
for r, c in PRIMS:
    w = WIDE.get(r, "Varint")
    vt.append('pub open spec fn t_%s() -> GType { GType::Primitive(nm("%s"@, Some("%s"@)), WireType::%s) }' % (r.lower(), r, c, w))


def builtin(me, gen, n, targs, links):
    vt.append("""
pub proof fn meta_%s%s()
    ensures
[C20]   <%s>::name_() == %s,
[C20]   <%s>::type_() == GType::Ref(%s, seq![%s]),
[C20]   <%s>::link_() == (GLink { ty: <%s>::type_(), msg: None }),
[C20]   <%s>::links_() == nil::<GLink>()%s,
{}""" % (n, gen, me, "n_%s()" % n if n[:3] != "arr" else "n_arr()", me, "n_%s()" % n if n[:3] != "arr" else "n_arr()", targs, me, me, me, links))


builtin("Bytes", "", "bytes", "", "")
builtin("Vec<T>", "<T: HasLinks>", "vec", "gtype(T::type_())", ".push(T::link_())")
builtin("Option<T>", "<T: HasLinks>", "opt", "gtype(T::type_())", ".push(T::link_())")
builtin("List<T>", "<T: HasLinks>", "list", "gtype(T::type_())", ".push(T::link_())")
builtin("Map<K, T>", "<K: HasLinks, T: HasLinks>", "map", "gtype(T::type_())", ".push(T::link_())")
for n in range(1, 8):
    builtin("[T; %d]" % n, "<T: HasLinks>", "arr%d" % n, "gtype(T::type_())", ".push(T::link_())")
vt.append("""
/// A box is what it holds.
pub proof fn meta_box<T: HasLinks>()
    ensures
[C20]   <Box<T>>::name_() == n_box(),
[C20]   <Box<T>>::type_() == T::type_(),
[C20]   <Box<T>>::link_() == T::link_(),
[C20]   <Box<T>>::links_() == T::links_(),
{}
pub proof fn meta_maybe<T: HasLinks>()
    ensures
[C20]   <Maybe<T>>::name_() == n_maybe(),
[C20]   <Maybe<T>>::type_() == GType::Ref(n_maybe(), seq![gtype(T::type_())]),
[C20]   <Maybe<T>>::link_() == (GLink { ty: <Maybe<T>>::type_(), msg: Some(GMsg::Enum(GEnum { name: n_maybe(), type_params: seq!["T"@], variants: seq![
            GVariant { ty: GStruct { name: nm("None"@, None), type_params: seq![], fields: seq![], builtin: true }, tag: 0u32 },
            GVariant { ty: GStruct { name: nm("Some"@, None), type_params: seq![],
                fields: seq![GField { name: nm("value"@, None), ty: GFieldType::TypeParam("T"@), tag: 0u32 }], builtin: true }, tag: 1u32 }],
            builtin: true })) }),
[C20]   <Maybe<T>>::links_() == nil::<GLink>().push(T::link_()),
{}""")
path = 'GField { name: nm("path"@, Some("flatten_path"@)), ty: gtype(GType::Ref(n_vec(), seq![gtype(t_u32())])), tag: 0u32 }'
ops = [("Update", 0, "value", "gtype(GType::Ref(n_bytes(), seq![]))"), ("ListPush", 8, "item", "gtype(GType::Ref(n_bytes(), seq![]))"),
       ("ListPop", 9, None, None), ("MapRemove", 12, "key", "gtype(t_u32())")]
vt.append("""
/// The entries of a log, as the changes' readers know them.
pub proof fn meta_log_entry()
    ensures
[C20]   <LogEntry>::type_() == GType::Ref(nm("LogEntry"@, None), seq![]),
[C20]   <LogEntry>::link_() == (GLink { ty: <LogEntry>::type_(), msg: Some(GMsg::Enum(GEnum { name: nm("LogEntry"@, None), type_params: seq![], variants: seq![
            %s], builtin: true })) }),
[C20]   <LogEntry>::links_() == nil::<GLink>()%s,
{}""" % (",\n            ".join('GVariant { ty: GStruct { name: nm("%s"@, None), type_params: seq![], fields: seq![%s], builtin: true }, tag: %du32 }' % (
            n, path + (', GField { name: nm("%s"@, None), ty: %s, tag: 1u32 }' % (f, t) if f else ""), k) for n, k, f, t in ops),
        "".join(".push(<Vec<u32>>::link_())" + (".push(<%s>::link_())" % ("u32" if f == "key" else "Bytes") if f else "") for n, k, f, t in ops)))
vt.append("pub proof fn meta_prims()\n    ensures")
for r, c in PRIMS:
    vt.append("[C20]   <%s>::type_() == t_%s() && <%s>::link_() == (GLink { ty: t_%s(), msg: None }) && <%s>::links_() == nil::<GLink>()," % (r, r.lower(), r, r.lower(), r))
vt.append("{}")
vt += [contract(d) for d in DEFS]
open(os.path.join(HERE, "contracts", "96_meta.vt"), "w").write(lists("\n".join(vt)) + "\n")
