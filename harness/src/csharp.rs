//! C20: what the C# generator writes, read back and compared with the definitions.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

use steit::{
    gen::{
        generators::{CSharpGenerator, CSharpSetting},
        Generator, Setting,
    },
    meta::*,
    steit_derive,
    types::{Bytes, List, Map, Maybe},
    wire_fmt::{HasWireType, WireType},
};

use crate::rng::Rng;
use crate::run::*;

// ---------------------------------------------------------------------------------------------
// What a class is to say, in terms of the definition.

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    /// The value is read by `reader.Read…()`.
    Prim(&'static str),
    /// Another class.
    Class,
    Param,
}

#[derive(Clone, Debug, PartialEq)]
pub struct F {
    tag: u32,
    /// UpperCamelCase
    name: String,
    ty: String,
    kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct S {
    name: String,
    params: Vec<String>,
    fields: Vec<F>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Struct(S),
    Enum { name: String, params: Vec<String>, variants: Vec<(u32, S)> },
}

// ---------------------------------------------------------------------------------------------
// Reading a generated file.

#[derive(Clone, Debug, Default)]
struct Class {
    head: String,
    lines: Vec<String>,
    inner: Vec<Class>,
}

/// The class whose opening line was just read, up to its closing brace.
fn class(head: &str, it: &mut std::slice::Iter<&str>) -> Result<Class, String> {
    let mut c = Class { head: head.to_string(), ..Default::default() };
    let mut depth = 1i32;
    while let Some(l) = it.next() {
        let l = l.trim();
        if l.contains(" class ") {
            c.inner.push(class(l, it)?);
            continue;
        }
        depth += l.matches('{').count() as i32 - l.matches('}').count() as i32;
        if depth == 0 {
            return Ok(c);
        }
        if !l.is_empty() {
            c.lines.push(l.to_string());
        }
    }
    Err(format!("`{}` is not closed", head))
}

fn file(src: &str, namespace: &str) -> Result<Class, String> {
    let all: Vec<&str> = src.lines().collect();
    let mut it = all.iter();
    let mut space = false;
    let mut found = None;
    while let Some(l) = it.next() {
        let l = l.trim();
        if l.starts_with("namespace ") {
            if l != format!("namespace {} {{", namespace) || space {
                return Err(format!("unexpected `{}`", l));
            }
            space = true;
        } else if l.contains(" class ") {
            if found.is_some() || !space {
                return Err(format!("unexpected `{}`", l));
            }
            found = Some(class(l, &mut it)?);
        }
    }
    found.ok_or_else(|| "no class".to_string())
}

impl Class {
    /// The lines of the method or switch whose opening line starts so.
    fn section(&self, open: &str) -> Result<Vec<String>, String> {
        let mut out = vec![];
        let mut depth = None;
        for l in &self.lines {
            let d = l.matches('{').count() as i32 - l.matches('}').count() as i32;
            match depth {
                None => {
                    if l.starts_with(open) {
                        depth = Some(d);
                    }
                }
                Some(n) => {
                    if n + d <= 0 {
                        return Ok(out);
                    }
                    out.push(l.clone());
                    depth = Some(n + d);
                }
            }
        }
        Err(format!("`{}` has no `{}`", self.head, open))
    }

    /// `case TAG: WHAT` of such a section.
    fn cases(&self, open: &str) -> Result<Vec<(u32, String)>, String> {
        let mut out = vec![];
        for l in self.section(open)? {
            if l.starts_with("case ") {
                let i = l.find(':').ok_or("a case without colon")?;
                out.push((l[5..i].trim().parse().map_err(|_| format!("`{}`", l))?, l[i + 1..].trim().to_string()));
            }
        }
        Ok(out)
    }
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: {:?} where the definition says {:?}", what, got, want))
    }
}

fn full(name: &str, params: &[String]) -> String {
    if params.is_empty() {
        name.to_string()
    } else {
        format!("{}<{}>", name, params.join(", "))
    }
}

fn path_arg(s: &str, tag: u32) -> bool {
    s.contains(&format!("this.Path.GetNested({}))", tag))
}

fn check_struct(c: &Class, s: &S, variant: bool) -> Res {
    let name = if variant { s.name.clone() } else { full(&s.name, &s.params) };
    same("the class", c.head.as_str(), format!("public sealed partial class {} : IState {{", name).as_str())?;
    let at = |w: &str| format!("{} of {}", w, name);
    same(&at("classes inside"), c.inner.len(), 0)?;

    let props: Vec<(String, String)> = c
        .lines
        .iter()
        .filter(|l| l.starts_with("public ") && l.ends_with("{ get; private set; }"))
        .map(|l| {
            let x = l["public ".len()..l.len() - " { get; private set; }".len()].to_string();
            let i = x.rfind(' ').unwrap_or(0);
            (x[..i].to_string(), x[i..].trim().to_string())
        })
        .collect();
    same(&at("properties"), props, s.fields.iter().map(|f| (f.ty.clone(), f.name.clone())).collect())?;

    let events: Vec<String> = c.lines.iter().filter(|l| l.starts_with("public static event ")).cloned().collect();
    same(
        &at("events"),
        events,
        s.fields.iter().map(|f| format!("public static event EventHandler<FieldUpdateEventArgs<{}, {}>> On{}Update;", f.ty, name, f.name)).collect(),
    )?;

    let open = format!("{} {}(Path path = null) {{", if variant { "internal" } else { "public" }, s.name);
    let ctor = c.section(&open)?;
    let inits: Vec<String> = ctor.iter().filter(|l| l.starts_with("this.") && !l.starts_with("this.Path =")).cloned().collect();
    let mut want = vec![];
    for f in &s.fields {
        match f.kind {
            Kind::Prim(_) => (),
            Kind::Class => want.push(format!("this.{} = new {}(this.Path.GetNested({}));", f.name, f.ty, f.tag)),
            Kind::Param => want.push(format!("this.{} = StateFactory.Construct<{}>(this.Path.GetNested({}));", f.name, f.ty, f.tag)),
        }
    }
    same(&at("the constructor"), inits, want)?;

    let wire = c.cases("public WireType? GetWireType(UInt32 tag) {")?;
    let mut want = vec![];
    for f in &s.fields {
        let w = match f.kind {
            Kind::Prim("String") | Kind::Class => "return WireType.Sized;".to_string(),
            Kind::Prim(_) => "return WireType.Varint;".to_string(),
            Kind::Param => format!("return StateFactory.IsStateType(typeof({})) ? WireType.Sized : WireType.Varint;", f.ty),
        };
        want.push((f.tag, w));
    }
    same(&at("wire types"), wire, want)?;

    let nested = c.cases("public IState GetNested(UInt32 tag) {")?;
    let mut want = vec![];
    for f in &s.fields {
        match f.kind {
            Kind::Prim(_) => (),
            Kind::Class => want.push((f.tag, format!("return this.{};", f.name))),
            Kind::Param => want.push((f.tag, format!("return this.{} as IState;", f.name))),
        }
    }
    same(&at("nested states"), nested, want)?;

    let replace = c.cases("public void ReplaceAt(UInt32 tag, WireType wireType, IReader reader, bool shouldNotify) {")?;
    let tags: Vec<u32> = replace.iter().map(|x| x.0).collect();
    same(&at("replaced fields"), tags, s.fields.iter().map(|f| f.tag).collect())?;
    for (f, (_, x)) in s.fields.iter().zip(&replace) {
        let read = match &f.kind {
            Kind::Prim(p) => format!("reader.Read{}()", p),
            Kind::Class => format!("{}.Deserialize(reader, this.Path.GetNested({}))", f.ty, f.tag),
            Kind::Param => format!("StateFactory.Deserialize<{}>(reader, this.Path, {})", f.ty, f.tag),
        };
        let want = format!("this.{0} = this.MaybeNotify({1}, {2}, this.{0}, On{0}Update, shouldNotify); break;", f.name, f.tag, read);
        same(&at("what replaces a field"), x.as_str(), want.as_str())?;
    }

    let made = c.section(&format!("{} static {} Deserialize(IReader reader, Path path = null) {{", if variant { "internal" } else { "public" }, name))?;
    if !made.iter().any(|l| l.contains(&format!("= new {}(path);", name))) {
        return Err(at("Deserialize does not make a value"));
    }
    Ok(())
}

fn check_class(c: &Class, m: &M) -> Res {
    let (name, params, variants) = match m {
        M::Struct(s) => return check_struct(c, s, false),
        M::Enum { name, params, variants } => (name, params, variants),
    };
    let full_name = full(name, params);
    let at = |w: &str| format!("{} of {}", w, full_name);
    same("the class", c.head.as_str(), format!("public sealed partial class {} : IEnumState {{", full_name).as_str())?;

    let consts: Vec<String> = c.lines.iter().filter(|l| l.starts_with("public const UInt32 ")).cloned().collect();
    same(&at("tags"), consts, variants.iter().map(|(t, s)| format!("public const UInt32 {}Tag = {};", upper(&s.name), t)).collect())?;

    let values: Vec<String> = c.lines.iter().filter(|l| l.contains("return this.Variant as ")).cloned().collect();
    same(&at("variants"), values, variants.iter().map(|(_, s)| format!("public {0} {0}Variant {{ get {{ return this.Variant as {0}; }} }}", s.name)).collect())?;

    let first = variants.iter().find(|v| v.0 == 0).ok_or("no default variant")?;
    if !c.lines.contains(&format!("public {}(Path path = null) : this(path, 0) {{ }}", name)) {
        return Err(at("the constructor does not start with the default variant"));
    }
    let made = c.section(&format!("public {}(Path path, UInt32 tag) {{", name))?;
    let mut want: Vec<String> =
        variants.iter().map(|(t, s)| format!("case {0}: this.Variant = new {1}(this.Path.GetNested({0})); break;", t, s.name)).collect();
    want.push(format!("default: this.Variant = new {}(this.Path.GetNested(0)); break;", first.1.name));
    same(&at("what is constructed"), made.into_iter().filter(|l| l.contains("this.Variant = new")).collect(), want)?;

    let wire = c.cases("public WireType? GetWireType(UInt32 tag) {")?;
    same(&at("wire types"), wire, variants.iter().map(|(t, _)| (*t, "return WireType.Sized;".to_string())).collect())?;

    let replace = c.cases("public void ReplaceAt(UInt32 tag, WireType wireType, IReader reader, bool shouldNotify) {")?;
    same(
        &at("what is replaced"),
        replace,
        variants
            .iter()
            .map(|(t, s)| (*t, format!("this.UpdateAndNotify({0}, {1}.Deserialize(reader, this.Path.GetNested({0})), shouldNotify); break;", t, s.name)))
            .collect(),
    )?;

    same(&at("classes inside"), c.inner.len(), variants.len())?;
    for (x, (_, s)) in c.inner.iter().zip(variants) {
        check_struct(x, s, true)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// The generator is run in a directory of its own.

struct Dir(PathBuf);

static DIRS: AtomicU64 = AtomicU64::new(0);

impl Dir {
    fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("wit-cs-{}-{}", std::process::id(), DIRS.fetch_add(1, SeqCst)));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Default)]
struct Opt {
    builtins: bool,
    rust_names: bool,
    skip: Vec<String>,
}

/// What is generated: the files by name.
fn generate<T: HasMeta>(o: &Opt, namespace: &str) -> Result<BTreeMap<String, String>, String> {
    let d = Dir::new();
    let mut set = Setting::new(&d.0, CSharpSetting::new(namespace).using_namespaces(vec!["Some.Thing"])).skip_builtins(!o.builtins);
    if o.rust_names {
        set = set.get_name_rust();
    }
    if !o.skip.is_empty() {
        set = set.skip_names(o.skip.clone());
    }
    let mut before = calm(|| CSharpGenerator.generate::<T>(&set))?.map_err(|e| e.to_string())?;
    // What was there before is replaced: it says more, or something else.
    for (k, n) in before.iter().enumerate() {
        let p = d.0.join(format!("{}.cs", n));
        let old = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
        let add = ["", "}\n// more\n", "// something\n"][k % 3];
        std::fs::write(&p, if k % 3 == 2 { add.to_string() } else { old + add }).map_err(|e| e.to_string())?;
    }
    let mut names = calm(|| CSharpGenerator.generate::<T>(&set))?.map_err(|e| e.to_string())?;
    before.sort();
    names.sort();
    same("names returned again", &names, &before)?;
    let mut out = BTreeMap::new();
    for e in std::fs::read_dir(&d.0).map_err(|e| e.to_string())? {
        let p = e.map_err(|e| e.to_string())?.path();
        let n = p.file_name().unwrap().to_string_lossy().into_owned();
        if !n.ends_with(".cs") {
            return Err(format!("the file {:?} was written", n));
        }
        out.insert(n[..n.len() - 3].to_string(), std::fs::read_to_string(&p).map_err(|e| e.to_string())?);
    }
    let said: BTreeSet<String> = names.iter().cloned().collect();
    same("names returned", (said.len(), said), (names.len(), out.keys().cloned().collect()))?;
    Ok(out)
}

fn compare(got: &BTreeMap<String, String>, want: &BTreeMap<String, M>, namespace: &str) -> Res {
    same("files", got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>())?;
    for (n, src) in got {
        let c = file(src, namespace).map_err(|e| format!("{}.cs: {}", n, e))?;
        check_class(&c, &want[n]).map_err(|e| format!("{}.cs: {}", n, e))?;
    }
    Ok(())
}

fn upper(s: &str) -> String {
    let mut out = String::new();
    let mut up = true;
    for c in s.chars() {
        if c == '_' {
            up = true;
        } else if up {
            out.extend(c.to_uppercase());
            up = false;
        } else {
            out.push(c);
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Definitions through the derive macro.

#[steit_derive(Serialize, Deserialize)]
pub struct Deep {
    #[steit(tag = 3)]
    pub only: i64,
}

#[steit_derive(Serialize, Deserialize)]
pub struct Mid {
    #[steit(tag = 0)]
    pub deep_one: Deep,
    #[steit(tag = 9, csharp_name = "flagged_as")]
    pub flag: bool,
}

#[steit_derive(Serialize, Deserialize)]
pub struct Top {
    #[steit(tag = 7)]
    pub mid: Box<Mid>,
    #[steit(tag = 300)]
    pub count: Box<u32>,
    #[steit(tag = 2)]
    pub mids: Vec<Mid>,
    #[steit(tag = 4)]
    pub opt: Option<String>,
    #[steit(tag = 5)]
    pub raw_bytes: Bytes,
    #[steit(tag = 6)]
    pub many: [u16; 3],
    #[steit(tag = 536870911)]
    pub text: String,
}

#[steit_derive(Serialize, Deserialize)]
#[steit(csharp_name = "Chosen")]
pub enum Pick {
    #[steit(tag = 4)]
    One {
        #[steit(tag = 0)]
        v: i16,
        #[steit(tag = 2)]
        top: Option<Box<Top>>,
    },
    #[steit(tag = 0)]
    Nothing {},
    #[steit(tag = 2)]
    Two(#[steit(tag = 1)] Box<Vec<Deep>>, #[steit(tag = 0)] u8),
}

#[steit_derive(Serialize, Deserialize)]
pub struct Pair<A: HasWireType, B: HasWireType> {
    #[steit(tag = 0)]
    pub left: A,
    #[steit(tag = 1)]
    pub rights: Vec<B>,
    #[steit(tag = 2)]
    pub both: Box<B>,
}

#[steit_derive(Serialize, Deserialize)]
pub struct Pairs {
    #[steit(tag = 0)]
    pub p: Pair<Mid, u8>,
    #[steit(tag = 1)]
    pub q: Box<Pair<i8, Box<Pick>>>,
}

/// Refers to itself.
#[steit_derive(Serialize, Deserialize)]
pub struct Chain {
    #[steit(tag = 1)]
    pub next: Option<Box<Chain>>,
    #[steit(tag = 0)]
    pub value: Box<Deep>,
}

#[steit_derive(State)]
pub struct Player {
    #[steit(tag = 0)]
    pub name: u64,
    #[steit(tag = 1)]
    pub scores: List<i32>,
}

pub type Players = Map<u8, Player>;

#[steit_derive(State)]
pub struct Game {
    #[steit(tag = 0)]
    pub board: List<Player>,
    #[steit(tag = 1)]
    pub by_id: Map<u32, Player>,
    #[steit(tag = 2)]
    pub best: Maybe<Player>,
    #[steit(tag = 3)]
    pub others: Players,
    #[steit(tag = 5)]
    pub deeper: Map<u16, List<Map<u8, i8>>>,
}

#[steit_derive(Serialize, Deserialize)]
pub struct Odd {
    #[steit(tag = 1)]
    pub r#type: u8,
    #[steit(tag = 0)]
    pub r#match: Deep,
}

/// Reached twice: behind a pointer first, and not.
#[steit_derive(Serialize, Deserialize)]
pub struct Twice {
    #[steit(tag = 0)]
    pub a: Box<Mid>,
    #[steit(tag = 1)]
    pub b: Mid,
}

pub fn f(tag: u32, name: &str, ty: &str) -> F {
    let prims = ["Byte", "UInt16", "UInt32", "UInt64", "SByte", "Int16", "Int32", "Int64", "Boolean", "String"];
    let kind = match prims.iter().find(|p| **p == ty) {
        Some(p) => Kind::Prim(p),
        None if ty.len() == 1 => Kind::Param,
        None => Kind::Class,
    };
    F { tag, name: name.to_string(), ty: ty.to_string(), kind }
}

pub fn s(name: &str, params: &[&str], fields: Vec<F>) -> S {
    S { name: name.to_string(), params: params.iter().map(|x| x.to_string()).collect(), fields }
}

/// The definitions above, as C# is to have them.
fn defined() -> BTreeMap<&'static str, M> {
    let mut m = BTreeMap::new();
    m.insert("Deep", M::Struct(s("Deep", &[], vec![f(3, "Only", "Int64")])));
    m.insert("Mid", M::Struct(s("Mid", &[], vec![f(0, "DeepOne", "Deep"), f(9, "FlaggedAs", "Boolean")])));
    let top = vec![
        f(7, "Mid", "Mid"),
        f(300, "Count", "UInt32"),
        f(2, "Mids", "Vector<Mid>"),
        f(4, "Opt", "Option<String>"),
        f(5, "RawBytes", "Bytes"),
        f(6, "Many", "Vector<UInt16>"),
        f(536870911, "Text", "String"),
    ];
    m.insert("Top", M::Struct(s("Top", &[], top)));
    m.insert(
        "Chosen",
        M::Enum {
            name: "Chosen".to_string(),
            params: vec![],
            variants: vec![
                (4, s("One", &[], vec![f(0, "V", "Int16"), f(2, "Top", "Option<Top>")])),
                (0, s("Nothing", &[], vec![])),
                (2, s("Two", &[], vec![f(1, "F0", "Vector<Deep>"), f(0, "F1", "Byte")])),
            ],
        },
    );
    m.insert("Pair", M::Struct(s("Pair", &["A", "B"], vec![f(0, "Left", "A"), f(1, "Rights", "Vector<B>"), f(2, "Both", "B")])));
    m.insert("Pairs", M::Struct(s("Pairs", &[], vec![f(0, "P", "Pair<Mid, Byte>"), f(1, "Q", "Pair<SByte, Chosen>")])));
    m.insert("Chain", M::Struct(s("Chain", &[], vec![f(1, "Next", "Option<Chain>"), f(0, "Value", "Deep")])));
    m.insert("Player", M::Struct(s("Player", &[], vec![f(0, "Name", "UInt64"), f(1, "Scores", "StateList<Int32>")])));
    let game = vec![
        f(0, "Board", "StateList<Player>"),
        f(1, "ById", "StateMap<Player>"),
        f(2, "Best", "Maybe<Player>"),
        f(3, "Others", "StateMap<Player>"),
        f(5, "Deeper", "StateMap<StateList<StateMap<SByte>>>"),
    ];
    m.insert("Game", M::Struct(s("Game", &[], game)));
    m.insert(
        "Maybe",
        M::Enum {
            name: "Maybe".to_string(),
            params: vec!["T".to_string()],
            variants: vec![(0, s("None", &[], vec![])), (1, s("Some", &[], vec![f(0, "Value", "T")]))],
        },
    );
    m.insert("Odd", M::Struct(s("Odd", &[], vec![f(1, "Type", "Byte"), f(0, "Match", "Deep")])));
    m.insert("Twice", M::Struct(s("Twice", &[], vec![f(0, "A", "Mid"), f(1, "B", "Mid")])));
    #[cfg(feature = "cs")]
    m.extend(crate::csharp_defs::defined());
    m
}

pub fn reach<T: HasMeta>(names: &[&str]) -> Res {
    let d = defined();
    for o in vec![Opt::default(), Opt { builtins: true, ..Opt::default() }, Opt { skip: vec![names[0].to_string()], ..Opt::default() }] {
        let want = names.iter().filter(|n| (o.builtins || **n != "Maybe") && !o.skip.iter().any(|x| x == *n)).map(|n| (n.to_string(), d[*n].clone())).collect();
        compare(&generate::<T>(&o, "A.B")?, &want, "A.B")?;
    }
    Ok(())
}

macro_rules! reaches {
    ($($f:ident $t:ty: $($n:literal)*;)*) => {
        pub fn derived_families() -> Vec<Fam> {
            $(fn $f(cx: &mut Cx) -> Res { cx.note(stringify!($t).as_bytes()); reach::<$t>(&[$($n),*]) })*
            vec![$(once(&format!("generate<{}>", stringify!($t).replace(' ', "")), $f)),*]
        }
    };
}

reaches! {
    d1 Deep: "Deep";
    d2 Mid: "Mid" "Deep";
    d3 Top: "Top" "Mid" "Deep";
    d4 Pick: "Chosen" "Top" "Mid" "Deep";
    d5 Pairs: "Pairs" "Pair" "Mid" "Deep" "Chosen" "Top";
    d6 Chain: "Chain" "Deep";
    d7 Game: "Game" "Player" "Maybe";
    d8 Odd: "Odd" "Deep";
    d9 Twice: "Twice" "Mid" "Deep";
    d10 Box<Twice>: "Twice" "Mid" "Deep";
    d11 Vec<Option<Box<Pairs>>>: "Pairs" "Pair" "Mid" "Deep" "Chosen" "Top";
    d12 Maybe<Box<Player>>: "Maybe" "Player";
    d13 [Box<Chain>; 2]: "Chain" "Deep";
    d14 Map<u8, List<Game>>: "Game" "Player" "Maybe";
}

/// The wire type in the description of a type is the one its encoding has.
pub fn c20_primitives(_: &mut Cx) -> Res {
    fn one<T: HasMeta + HasWireType>(csharp: Option<&str>) -> Res {
        match (T::TYPE, csharp) {
            (TypeMeta::Primitive(n, w), Some(c)) => {
                same("C# name", n.csharp, Some(c))?;
                same("wire type", *w, T::WIRE_TYPE)
            }
            (TypeMeta::Ref(_, _), None) => same("wire type", WireType::Sized, T::WIRE_TYPE),
            (t, c) => Err(format!("{:?} described as {:?}", c, t)),
        }
    }
    one::<u8>(Some("Byte"))?;
    one::<u16>(Some("UInt16"))?;
    one::<u32>(Some("UInt32"))?;
    one::<u64>(Some("UInt64"))?;
    one::<i8>(Some("SByte"))?;
    one::<i16>(Some("Int16"))?;
    one::<i32>(Some("Int32"))?;
    one::<i64>(Some("Int64"))?;
    one::<bool>(Some("Boolean"))?;
    one::<String>(Some("String"))?;
    one::<Bytes>(None)?;
    one::<Vec<u8>>(None)?;
    one::<[u8; 3]>(None)?;
    one::<Option<u8>>(None)?;
    one::<List<u8>>(None)?;
    one::<Map<u8, u8>>(None)?;
    one::<Maybe<u8>>(None)?;
    one::<Box<i16>>(Some("Int16"))?;
    one::<Box<Top>>(None)?;
    one::<Pick>(None)
}

// ---------------------------------------------------------------------------------------------
// Descriptions made at random: any graph of messages.

const N: usize = 12;

#[derive(Clone)]
struct Graph {
    links: Vec<&'static MetaLink>,
    to: Vec<&'static [&'static MetaLink]>,
    /// The C# or Rust name of the file, and what it is to hold; nothing for what is no message.
    msgs: Vec<Option<(String, String, bool, M)>>,
    edges: Vec<Vec<usize>>,
}

thread_local! {
    static GRAPH: RefCell<Vec<&'static [&'static MetaLink]>> = RefCell::new(vec![]);
    static ROOT: RefCell<Option<&'static MetaLink>> = RefCell::new(None);
}

macro_rules! outs {
    ($($f:ident $n:literal)*) => {
        $(fn $f() -> &'static [&'static MetaLink] { GRAPH.with(|g| g.borrow()[$n]) })*
        const OUTS: [fn() -> &'static [&'static MetaLink]; N] = [$($f),*];
    };
}
outs! { o0 0 o1 1 o2 2 o3 3 o4 4 o5 5 o6 6 o7 7 o8 8 o9 9 o10 10 o11 11 }

fn root_links() -> &'static [&'static MetaLink] {
    ROOT.with(|r| lend(vec![r.borrow().unwrap()]))
}

struct Root;

impl HasMeta for Root {
    const NAME: &'static NameMeta = &NameMeta::new("Root_");
    const TYPE: &'static TypeMeta = &TypeMeta::Ref(Self::NAME, &[]);
    const LINK: &'static MetaLink = &MetaLink { r#type: Self::TYPE, msg: None, links: root_links };
}

fn lend<T>(x: Vec<T>) -> &'static [T] {
    Vec::leak(x)
}

fn one<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

fn word(r: &mut Rng, cap: bool) -> String {
    let parts = ["alpha", "b", "see", "d2", "2nd", "Echo", "fox_trot", "g", "hOtel", "india", "ÿ", "éa", "ß", "_k", "l_", "m__n"];
    let mut w = String::new();
    for _ in 0..1 + r.below(3) {
        if !w.is_empty() && r.chance(1, 2) {
            w.push('_');
        }
        w.push_str(r.pick(&parts[..if cap { 10 } else { 16 }]));
    }
    w
}

/// A name; in C# it is the second part.
fn name_of(r: &mut Rng, stem: String) -> (&'static NameMeta, String) {
    if r.chance(1, 3) {
        let cs = format!("{}_cs", stem);
        (one(NameMeta { rust: Box::leak(format!("rs{}", stem).into_boxed_str()), csharp: Some(Box::leak(cs.clone().into_boxed_str())) }), cs)
    } else {
        (one(NameMeta { rust: Box::leak(stem.clone().into_boxed_str()), csharp: None }), stem)
    }
}

struct Types {
    /// Names and C# names of the nodes, and how many arguments they take.
    nodes: Vec<(&'static NameMeta, String, usize)>,
    params: Vec<String>,
}

fn prims() -> Vec<(&'static TypeMeta, &'static str)> {
    vec![
        (u8::TYPE, "Byte"),
        (u16::TYPE, "UInt16"),
        (u32::TYPE, "UInt32"),
        (u64::TYPE, "UInt64"),
        (i8::TYPE, "SByte"),
        (i16::TYPE, "Int16"),
        (i32::TYPE, "Int32"),
        (i64::TYPE, "Int64"),
        (bool::TYPE, "Boolean"),
        (String::TYPE, "String"),
    ]
}

fn a_type(r: &mut Rng, t: &Types, depth: u32) -> (FieldTypeMeta, String, Kind) {
    match r.below(if depth > 2 { 3 } else { 6 }) {
        0 | 1 => {
            let p = *r.pick(&prims());
            (FieldTypeMeta::Type(p.0), p.1.to_string(), Kind::Prim(p.1))
        }
        2 if !t.params.is_empty() => {
            let p = r.pick(&t.params).clone();
            (FieldTypeMeta::TypeParam(Box::leak(p.clone().into_boxed_str())), p, Kind::Param)
        }
        3 => {
            // A pointer says what it points to.
            let (m, s, k) = a_type(r, t, depth + 1);
            (FieldTypeMeta::Type(one(TypeMeta::Ref(<Box<u8> as HasMeta>::NAME, lend(vec![m])))), s, k)
        }
        4 => {
            let (m, s, _) = a_type(r, t, depth + 1);
            let mut args = vec![];
            let mut name = Map::<u8, u8>::NAME;
            let mut of = "StateMap";
            match r.below(4) {
                0 => {
                    args.push(FieldTypeMeta::Type(*r.pick(&[u8::TYPE, u16::TYPE, u32::TYPE])));
                }
                1 => {
                    name = List::<u8>::NAME;
                    of = "StateList";
                }
                2 => {
                    name = Vec::<u8>::NAME;
                    of = "Vector";
                }
                _ => {
                    name = Option::<u8>::NAME;
                    of = "Option";
                }
            }
            args.push(m);
            (FieldTypeMeta::Type(one(TypeMeta::Ref(name, lend(args)))), format!("{}<{}>", of, s), Kind::Class)
        }
        _ => {
            let (n, cs, k) = r.pick(&t.nodes).clone();
            let args: Vec<_> = (0..k).map(|_| a_type(r, t, depth + 1)).collect();
            let names: Vec<_> = args.iter().map(|a| a.1.clone()).collect();
            let ty = TypeMeta::Ref(n, lend(args.into_iter().map(|a| a.0).collect()));
            (FieldTypeMeta::Type(one(ty)), full(&cs, &names), Kind::Class)
        }
    }
}

fn a_struct(r: &mut Rng, t: &Types, name: &'static NameMeta, cs: &str, params: &[String], builtin: bool) -> (StructMeta, S) {
    let mut tags = BTreeSet::new();
    let mut names = BTreeSet::new();
    let mut fields = vec![];
    let mut want = vec![];
    for _ in 0..*r.pick(&[0, 1, 1, 2, 3, 5, 9]) {
        let tag = if r.chance(1, 2) { r.below(12) as u32 } else { r.bits(29) as u32 };
        let mut w = word(r, false);
        if upper(&w).is_empty() {
            w = "x".to_string();
        }
        let (n, c) = name_of(r, w);
        if !names.insert(upper(&c)) || !tags.insert(tag) {
            continue;
        }
        let (ty, s, kind) = a_type(r, t, 0);
        want.push(F { tag, name: upper(&c), ty: s, kind });
        fields.push(FieldMeta { name: n, ty: one(ty), tag });
    }
    let type_params = lend(params.iter().map(|p| &*Box::leak(p.clone().into_boxed_str())).collect::<Vec<&'static str>>());
    (
        StructMeta { name, type_params, fields: lend(fields), builtin },
        S { name: cs.to_string(), params: params.to_vec(), fields: want },
    )
}

fn graph(r: &mut Rng) -> Graph {
    let n = 1 + r.below(N);
    let mut used = BTreeSet::new();
    let mut nodes = vec![];
    for i in 0..n {
        let digits = if r.chance(1, 3) { i.to_string() } else { String::new() };
        let stem = upper(&word(r, true)) + &digits;
        let (m, cs) = name_of(r, stem);
        // Two messages of one name cannot both have a file.
        if !used.insert(cs.clone()) || !used.insert(m.rust.to_string()) && cs != m.rust {
            let x = format!("U{}", i);
            nodes.push((one(NameMeta { rust: Box::leak(x.clone().into_boxed_str()), csharp: None }), x, r.below(3)));
        } else {
            nodes.push((m, cs, *r.pick(&[0, 0, 1, 2])));
        }
    }
    let mut msgs = vec![];
    let mut metas = vec![];
    for i in 0..n {
        let (m, cs, k) = nodes[i].clone();
        let params: Vec<String> = ["T", "U"][..k].iter().map(|x| x.to_string()).collect();
        let t = Types { nodes: nodes.clone(), params: params.clone() };
        let builtin = r.chance(1, 6);
        if r.chance(1, 6) {
            metas.push(None);
            msgs.push(None);
        } else if r.chance(1, 2) {
            let (x, s) = a_struct(r, &t, m, &cs, &params, builtin);
            metas.push(Some(MessageMeta::Struct(x)));
            msgs.push(Some((cs, m.rust.to_string(), builtin, M::Struct(s))));
        } else {
            let mut vs = vec![];
            let mut want = vec![];
            let mut tags = BTreeSet::new();
            let at = r.below(3);
            for j in 0..at + 1 + r.below(3) {
                let tag = if j == at { 0 } else { 1 + r.bits(28) as u32 };
                if !tags.insert(tag) {
                    continue;
                }
                let stem = format!("V{}{}", j, upper(&word(r, true)));
                let (vn, vcs) = name_of(r, stem);
                let (x, s) = a_struct(r, &t, vn, &vcs, &[], builtin);
                vs.push(VariantMeta { ty: x, tag });
                want.push((tag, s));
            }
            let type_params = lend(params.iter().map(|p| &*Box::leak(p.clone().into_boxed_str())).collect::<Vec<&'static str>>());
            metas.push(Some(MessageMeta::Enum(EnumMeta { name: m, type_params, variants: lend(vs), builtin })));
            msgs.push(Some((cs.clone(), m.rust.to_string(), builtin, M::Enum { name: cs, params, variants: want })));
        }
    }
    let mut links: Vec<&'static MetaLink> = vec![];
    for (i, msg) in metas.into_iter().enumerate() {
        links.push(one(MetaLink { r#type: one(TypeMeta::Ref(nodes[i].0, &[])), msg, links: OUTS[i] }));
    }
    let edges: Vec<Vec<usize>> = (0..n).map(|_| (0..r.below(4)).map(|_| r.below(n)).collect()).collect();
    let mut g = Graph { links, to: vec![], msgs, edges };
    g.relink();
    g
}

impl Graph {
    fn relink(&mut self) {
        self.to = self.edges.iter().map(|e| lend(e.iter().map(|j| self.links[*j]).collect())).collect();
    }

    fn run(&self, root: usize, o: &Opt) -> Result<BTreeMap<String, String>, String> {
        GRAPH.with(|g| *g.borrow_mut() = self.to.clone());
        ROOT.with(|r| *r.borrow_mut() = Some(self.links[root]));
        generate::<Root>(o, "N")
    }

    fn wanted(&self, root: usize, o: &Opt) -> BTreeMap<String, M> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![root];
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                todo.extend(&self.edges[i]);
            }
        }
        seen.iter()
            .filter_map(|i| self.msgs[*i].clone())
            .map(|(cs, rs, b, m)| (if o.rust_names { rs } else { cs }, b, m))
            .filter(|(n, b, _)| (o.builtins || !b) && !o.skip.contains(n))
            .map(|(n, _, m)| (n, m))
            .collect()
    }
}

pub fn c20_graph(cx: &mut Cx) -> Res {
    let mut g = graph(&mut cx.r);
    let root = cx.r.below(g.links.len());
    let mut o = Opt { builtins: cx.r.chance(1, 2), rust_names: cx.r.chance(1, 4), skip: vec![] };
    if cx.r.chance(1, 4) {
        for _ in 0..1 + cx.r.below(3) {
            if let Some((cs, rs, ..)) = &g.msgs[cx.r.below(g.links.len())] {
                o.skip.push(if o.rust_names { rs.clone() } else { cs.clone() });
            }
        }
    }
    let want = g.wanted(root, &o);
    let show = || format!("links {:?}, root {}, messages {:?}", g.edges, root, g.msgs);
    let first = g.run(root, &o).map_err(|e| format!("{}; {}", e, show()))?;
    for src in first.values() {
        cx.note(src.as_bytes());
    }
    compare(&first, &want, "N").map_err(|e| format!("{}; {}", e, show()))?;
    // Nothing depends on the order in which messages are met.
    for e in &mut g.edges {
        for i in (1..e.len()).rev() {
            e.swap(i, cx.r.below(i + 1));
        }
        if !e.is_empty() && cx.r.chance(1, 3) {
            let again = e[cx.r.below(e.len())];
            e.insert(0, again);
        }
    }
    g.relink();
    let again = g.run(root, &o)?;
    if again != first {
        return Err(format!("what is generated depends on the order of links: {:?}, root {}, messages {:?}", g.edges, root, g.msgs));
    }
    Ok(())
}

/// A file that cannot be written is reported.
pub fn c20_full(_: &mut Cx) -> Res {
    use std::os::unix::fs::FileTypeExt;
    match std::fs::metadata("/dev/full") {
        Ok(m) if m.file_type().is_char_device() => {}
        _ => return Ok(()),
    }
    for name in ["Deep", "Mid"] {
        let d = Dir::new();
        std::os::unix::fs::symlink("/dev/full", d.0.join(format!("{}.cs", name))).map_err(|e| e.to_string())?;
        let set = Setting::new(&d.0, CSharpSetting::new("N"));
        if calm(|| CSharpGenerator.generate::<Mid>(&set))?.is_ok() {
            return Err(format!("{}.cs could not be written, and generate::<Mid>() is Ok", name));
        }
    }
    Ok(())
}
