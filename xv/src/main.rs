//! Reads macro-expanded Rust source and writes, as JSON, every type, trait, impl and function in
//! it, with bodies rewritten by the rules R1..R23 (see DESIGN.md) and marked with anchors to which
//! specifications can be attached.  Nothing else about the code changes.

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

// Printing: one line per statement.

fn print(ts: TokenStream) -> String {
    let mut out = String::new();
    emit(ts, 0, &mut out);
    out
}

fn nl(out: &mut String, ind: usize) {
    while out.ends_with(' ') {
        out.pop();
    }
    out.push('\n');
    for _ in 0..ind {
        out.push_str("    ");
    }
}

fn emit(ts: TokenStream, ind: usize, out: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let n = v.len();
    for (i, t) in v.into_iter().enumerate() {
        match t {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    out.push_str("{");
                    if !g.stream().is_empty() {
                        nl(out, ind + 1);
                        emit(g.stream(), ind + 1, out);
                        nl(out, ind);
                    }
                    out.push_str("} ");
                }
                Delimiter::Parenthesis => {
                    out.push('(');
                    emit(g.stream(), ind, out);
                    if out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(") ");
                }
                Delimiter::Bracket => {
                    out.push('[');
                    emit(g.stream(), ind, out);
                    if out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str("] ");
                }
                Delimiter::None => emit(g.stream(), ind, out),
            },
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' && i + 1 < n {
                    nl(out, ind);
                } else if p.spacing() == Spacing::Alone {
                    out.push(' ');
                }
            }
            TokenTree::Ident(x) => {
                out.push_str(&x.to_string());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}

fn text(x: &impl ToTokens) -> String {
    print(x.to_token_stream()).trim().to_string()
}

// Rewriting.

const MODS: &[&str] = &[
    "crate", "std", "core", "alloc", "steit", "wire_fmt", "ser", "de", "rt", "log", "state", "types", "meta", "impls", "reader",
    "cmp", "default", "hash", "marker", "clone", "super", "self", "option", "result", "ops", "gen", "str_util", "gen_util",
];

/// R1: one flat name space. `::std::io::Result` becomes `io::Result`, `crate::rt::Runtime` becomes `Runtime`.
fn flat(p: &mut Path) {
    let n = p.segments.len();
    let mut k = 0;
    while k + 1 < n {
        let s = p.segments[k].ident.to_string();
        if MODS.contains(&s.as_str()) && p.segments[k].arguments.is_none() {
            k += 1;
        } else {
            break;
        }
    }
    if k > 0 {
        p.leading_colon = None;
        p.segments = p.segments.iter().skip(k).cloned().collect();
    }
}

/// R19: `let (&x, y) = e` becomes `let (x__r, y) = e; let x = *x__r;`.
fn deref_pats(p: &mut Pat, notes: &mut std::collections::BTreeSet<String>) -> Vec<Stmt> {
    let mut out = Vec::new();
    match p {
        Pat::Tuple(t) => {
            for q in t.elems.iter_mut() {
                out.extend(deref_pats(q, notes));
            }
        }
        Pat::Type(t) => out.extend(deref_pats(&mut t.pat, notes)),
        Pat::Paren(t) => out.extend(deref_pats(&mut t.pat, notes)),
        Pat::Reference(r) => {
            if let Pat::Ident(i) = &*r.pat {
                let x = &i.ident;
                let m = &i.mutability;
                let y = quote::format_ident!("{}__r", x);
                out.push(parse_quote!(let #m #x = *#y;));
                notes.insert("R19".into());
                *p = parse_quote!(#y);
            }
        }
        _ => {}
    }
    out
}

fn path_is(e: &Expr, tail: &[&str]) -> bool {
    if let Expr::Path(p) = e {
        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        v.len() >= tail.len() && v[v.len() - tail.len()..].iter().zip(tail).all(|(a, b)| a == b)
    } else {
        false
    }
}

thread_local! {
    /// Inside an implementation of PartialEq.
    static IN_EQ: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// R21: an argument of `error` that only says where or how the error is shown: dropping it drops nothing else.
fn only_shown(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => only_shown(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && only_shown(&r.expr),
        Expr::Paren(p) => only_shown(&p.expr),
        Expr::MethodCall(m) => m.args.is_empty() && only_shown(&m.receiver) && ["name", "path", "span", "to_token_stream", "clone", "to_string"].contains(&m.method.to_string().as_str()),
        Expr::Macro(m) => ["format", "concat", "stringify"].iter().any(|n| m.mac.path.is_ident(n)) && !m.mac.tokens.to_string().contains('('),
        _ => false,
    }
}

/// R22: what a quotation interpolates outside of any brackets.
fn interpolated(ts: TokenStream) -> Vec<Ident> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = Vec::new();
    for w in v.windows(2) {
        if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) {
            if p.as_char() == '#' {
                out.push(i.clone());
            }
        }
    }
    out
}

/// R25: `format!` as the pieces it puts together; nothing but plain `{}` is handled.
fn formatted(e: &Expr) -> Option<Expr> {
    let c = if let Expr::Call(c) = e { c } else { return None };
    if !path_is(&c.func, &["must_use"]) || c.args.len() != 1 {
        return None;
    }
    let b = if let Expr::Block(b) = &c.args[0] { b } else { return None };
    let inner = if let [Stmt::Expr(Expr::Call(i), None)] = &b.block.stmts[..] { i } else { return None };
    if !path_is(&inner.func, &["fmt", "format"]) || inner.args.len() != 1 {
        return None;
    }
    let m = if let Expr::Macro(m) = &inner.args[0] { m } else { return None };
    if !m.mac.path.is_ident("format_args") {
        return None;
    }
    let args = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    let lit = if let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = args.first() { l.value() } else { return None };
    let args: Vec<&Expr> = args.iter().skip(1).collect();
    let mut pieces: Vec<std::result::Result<String, usize>> = vec![];
    let mut text = String::new();
    let mut it = lit.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                text.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                text.push('}');
            }
            '{' => {
                let mut n = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        d => n.push(d),
                    }
                }
                if !text.is_empty() {
                    pieces.push(Ok(std::mem::take(&mut text)));
                }
                let n: usize = n.parse().ok()?;
                args.get(n)?;
                pieces.push(Err(n));
            }
            ch => text.push(ch),
        }
    }
    if !text.is_empty() || pieces.is_empty() {
        pieces.push(Ok(text));
    }
    let mut out: Option<Expr> = None;
    for p in pieces {
        out = Some(match (out, p) {
            (None, Ok(t)) => parse_quote!(fmt_lit(#t)),
            (None, Err(n)) => {
                let a = args[n];
                parse_quote!(fmt_show(&#a))
            }
            (Some(o), Ok(t)) => parse_quote!(#o.lit(#t)),
            (Some(o), Err(n)) => {
                let a = args[n];
                parse_quote!(#o.show(&#a))
            }
        });
    }
    out
}

fn is_text(e: &Expr) -> bool {
    matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
}

struct Rw {
    loops: usize,
    iters: usize,
    temps: usize,
    notes: BTreeSet<String>,
}

impl VisitMut for Rw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        flat(p);
    }

    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        let n = e.path.segments.len();
        visit_mut::visit_expr_path_mut(self, e);
        if let Some(q) = &mut e.qself {
            q.position -= (n - e.path.segments.len()).min(q.position);
        }
    }

    fn visit_type_path_mut(&mut self, e: &mut TypePath) {
        let n = e.path.segments.len();
        visit_mut::visit_type_path_mut(self, e);
        if let Some(q) = &mut e.qself {
            q.position -= (n - e.path.segments.len()).min(q.position);
        }
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        // R6: `dyn io::Read` behind a `&mut` made from `self` is `Self`.
        if let Type::TraitObject(o) = t {
            let s = text(o).replace(' ', "");
            if s.ends_with("io::Read") || s.ends_with("dynRead") {
                *t = parse_quote!(Self);
                self.notes.insert("R6".into());
                return;
            }
        }
        if let Type::Macro(m) = t {
            if m.mac.path.segments.last().unwrap().ident == "Token" {
                *t = parse_quote!(syn::Comma);
                return;
            }
        }
        // R15: the lock around a logger is a model type, the logger's own code stays.
        let s = text(t).replace(' ', "");
        if s.starts_with("Arc<Mutex<") && s.ends_with(">>") {
            if let Some(x) = s.strip_prefix("Arc<Mutex<RuntimeLogger<").and_then(|x| x.strip_suffix(">>>")) {
                let x: Type = parse_str(x).unwrap();
                *t = parse_quote!(LoggerHandle<#x>);
                self.notes.insert("R15".into());
                return;
            } else if s.ends_with("PausableLogger>>") {
                *t = parse_quote!(SharedLogger);
                self.notes.insert("R15".into());
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        // Anchors.
        let mut out = Vec::new();
        for s in b.stmts.drain(..) {
            if let Stmt::Item(Item::Use(_)) = &s {
                continue;
            }
            let mut c = Calls::default();
            c.visit_stmt(&s);
            let names = c.0.into_iter().collect::<Vec<_>>().join(",");
            let before = format!("<{}", names);
            let after = format!(">{}", names);
            let tail = matches!(&s, Stmt::Expr(_, None));
            let jump = matches!(&s, Stmt::Expr(Expr::Return(_) | Expr::Break(_) | Expr::Continue(_), _));
            if names.is_empty() {
                out.push(s);
                continue;
            }
            out.push(parse_quote!(__A!(#before);));
            out.push(s);
            if !tail && !jump {
                out.push(parse_quote!(__A!(#after);));
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(x) = formatted(e) {
            *e = x;
            self.notes.insert("R25".into());
        }
        // R26: comparison of text with a literal.
        if let Expr::Binary(b) = e {
            if is_text(&b.left) || is_text(&b.right) {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) => {
                        *e = parse_quote!(text_eq(&#l, &#r));
                        self.notes.insert("R26".into());
                    }
                    BinOp::Ne(_) => {
                        *e = parse_quote!(!text_eq(&#l, &#r));
                        self.notes.insert("R26".into());
                    }
                    _ => (),
                }
            }
        }
        // R27: `X.iter().map(f).collect()`, with f the name of a function, is the loop that it stands for.
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.args.is_empty() {
                if let Expr::MethodCall(m) = &*m.receiver {
                    if let (true, Some(Expr::Path(f)), Expr::MethodCall(i)) = (m.method == "map", m.args.first(), &*m.receiver) {
                        if i.method == "iter" && i.args.is_empty() {
                            let x = &i.receiver;
                            let f = f.clone();
                            *e = parse_quote!({
                                let mut all__ = Vec::new();
                                for one__ in #x.each_() {
                                    all__.push(#f(one__));
                                }
                                all__
                            });
                            self.notes.insert("R27".into());
                        }
                    }
                }
            }
        }
        // R4: closures given to `ok_or_else`, `map_err` become matches.
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let recv = &m.receiver;
                    let body = &c.body;
                    if name == "ok_or_else" && c.inputs.is_empty() {
                        self.notes.insert("R4".into());
                        *e = parse_quote!(match #recv { Some(v__) => Ok(v__), None => Err(#body) });
                    } else if name == "map_err" && c.inputs.len() == 1 {
                        self.notes.insert("R4".into());
                        let p = &c.inputs[0];
                        *e = parse_quote!(match #recv { Ok(v__) => Ok(v__), Err(#p) => Err(#body) });
                    } else if name == "map" && c.inputs.len() == 1 && matches!(&**recv, Expr::MethodCall(n) if n.method == "next" && n.args.is_empty()) {
                        // An Option: an iterator's next item.
                        self.notes.insert("R4".into());
                        let mut p = c.inputs[0].clone();
                        let refs = deref_pats(&mut p, &mut self.notes);
                        *e = parse_quote!(match #recv { Some(v__) => { let #p = v__; #(#refs)* Some(#body) } None => None });
                    }
                }
            }
        }
        // R21, R22, R23: the source of the procedural macro, before expansion.
        if let Expr::MethodCall(m) = e {
            if m.method == "error" && m.args.len() == 2 && m.args.iter().all(only_shown) {
                m.args.clear();
                self.notes.insert("R21".into());
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "parse" && m.args.len() == 3 {
                if let Expr::Closure(c) = &m.args[2] {
                    if c.inputs.len() == 1 {
                        let (x, ctx, flag, p, body) = (&m.receiver, &m.args[0], &m.args[1], &c.inputs[0], &c.body);
                        self.notes.insert("R23".into());
                        *e = parse_quote!({
                            let mut metas__ = #x.open_metas();
                            loop {
                                match metas__.next_meta(#ctx) {
                                    Some(meta__) => { let #p = &meta__; let taken__ = #body; metas__.judge_meta(#ctx, #flag, taken__); }
                                    None => { break; }
                                }
                            }
                            metas__.rest_metas()
                        });
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "quote" {
                let xs = interpolated(m.mac.tokens.clone());
                let f = quote::format_ident!("quoted{}", xs.len());
                *e = parse_quote!(#f(#(&#xs),*));
                self.notes.insert("R22".into());
            } else if name == "parse_quote" {
                *e = parse_quote!(syn::parse_quoted());
                self.notes.insert("R22".into());
            } else if name == "format_ident" {
                *e = parse_quote!(some_ident());
                self.notes.insert("R22".into());
            } else if name == "unreachable" {
                *e = parse_quote!(vpanic());
                self.notes.insert("R5".into());
            }
        }
        // R3: `for` loops become what they stand for.
        if let Expr::ForLoop(f) = e {
            if !matches!(&*f.expr, Expr::Range(_)) {
                let (mut pat, x, body) = (f.pat.clone(), &f.expr, &f.body);
                let refs = deref_pats(&mut pat, &mut self.notes);
                let it = quote::format_ident!("it__{}", self.iters);
                self.iters += 1;
                self.notes.insert("R3".into());
                *e = parse_quote!({
                    let mut #it = IntoIt::into_it(#x);
                    loop {
                        match #it.next_item() {
                            Some(item__) => { let #pat = item__; #(#refs)* #body }
                            None => { break; }
                        }
                    }
                });
            }
        }
        // Loop markers, numbered in source order.
        let k = self.loops;
        let is_loop = matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
        if is_loop {
            self.loops += 1;
        }
        // R2: errors carry a kind only.
        if let Expr::Call(c) = e {
            if path_is(&c.func, &["Error", "new"]) && c.args.len() == 2 {
                let a = c.args[0].clone();
                c.args.clear();
                c.args.push(a);
                self.notes.insert("R2".into());
            } else if ["panic_fmt", "begin_panic", "panic_display", "panic_str", "unreachable_display"].iter().any(|n| path_is(&c.func, &[n])) || path_is(&c.func, &["panicking", "panic"]) {
                self.notes.insert("R5".into());
                *e = parse_quote!(vpanic());
            } else if path_is(&c.func, &["boxed", "box_assume_init_into_vec_unsafe"]) {
                // R8: the expansion of `vec![..]`.
                if let Some(Expr::Call(w)) = c.args.first() {
                    if let Some(a) = w.args.last() {
                        let a = a.clone();
                        *e = parse_quote!(vec_of(#a));
                        self.notes.insert("R8".into());
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // R7: `x |= a != b` on booleans.
        if let Expr::Binary(b) = e {
            if let (BinOp::BitOrAssign(_), Expr::Binary(c)) = (&b.op, &*b.right) {
                if matches!(c.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) {
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(if #r { #l = true; });
                    self.notes.insert("R7".into());
                }
            }
        }
        // R14: inside an implementation of PartialEq, comparison operators are the calls they stand for.
        if IN_EQ.with(|x| x.get()) {
            if let Expr::Binary(b) = e {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) => {
                        *e = parse_quote!(PartialEq::eq(&#l, &#r));
                        self.notes.insert("R14".into());
                    }
                    BinOp::Ne(_) => {
                        *e = parse_quote!(!PartialEq::eq(&#l, &#r));
                        self.notes.insert("R14".into());
                    }
                    _ => (),
                }
            }
        }
        // R12: a temporary lent to a call gets a name.
        let hoist = |args: &mut syn::punctuated::Punctuated<Expr, Token![,]>, id: &Ident| -> Option<Expr> {
            for a in args.iter_mut() {
                if let Expr::Reference(r) = a {
                    if r.mutability.is_some() && matches!(&*r.expr, Expr::Try(_) | Expr::Call(_) | Expr::MethodCall(_)) {
                        let x = (*r.expr).clone();
                        r.expr = parse_quote!(#id);
                        return Some(x);
                    }
                }
            }
            None
        };
        let tmp = quote::format_ident!("tmp{}_", self.temps);
        let res = quote::format_ident!("res{}_", self.temps);
        let x = match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if (n == "read_to_end" || n == "read_exact" || n == "read") && matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_)) {
                    let x = (*m.receiver).clone();
                    m.receiver = parse_quote!(#tmp);
                    Some(x)
                } else {
                    hoist(&mut m.args, &tmp)
                }
            }
            Expr::Call(c) => hoist(&mut c.args, &tmp),
            _ => None,
        };
        if let Some(x) = x {
            let (b, a) = (format!(">let {}", tmp), format!(">let {}", res));
            let call = e.clone();
            *e = parse_quote!({ let mut #tmp = #x; __A!(#b); let #res = #call; __A!(#a); #res });
            self.temps += 1;
            self.notes.insert("R12".into());
        }
        if is_loop {
            let mk: Stmt = {
                let s = format!("{}", k);
                parse_quote!(__L!(#s);)
            };
            match e {
                Expr::While(w) => w.body.stmts.insert(0, mk),
                Expr::Loop(w) => w.body.stmts.insert(0, mk),
                Expr::ForLoop(w) => w.body.stmts.insert(0, mk),
                _ => (),
            }
        }
    }

    fn visit_item_mut(&mut self, _: &mut Item) {}
}

#[derive(Default)]
struct Calls(BTreeSet<String>);

impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, _: &'a Macro) {}
    // Statements of nested blocks have anchors of their own.
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        self.0.insert("=".into());
        visit::visit_expr_assign(self, a);
    }
    fn visit_local(&mut self, a: &'a Local) {
        if let Pat::Ident(p) = &a.pat {
            self.0.insert(format!("let {}", p.ident));
        }
        if let Pat::Type(t) = &a.pat {
            if let Pat::Ident(p) = &*t.pat {
                self.0.insert(format!("let {}", p.ident));
            }
        }
        visit::visit_local(self, a);
    }
    fn visit_expr_while(&mut self, a: &'a ExprWhile) {
        self.0.insert("while".into());
        visit::visit_expr_while(self, a);
    }
    fn visit_expr_loop(&mut self, a: &'a ExprLoop) {
        self.0.insert("loop".into());
        visit::visit_expr_loop(self, a);
    }
    fn visit_expr_if(&mut self, a: &'a ExprIf) {
        self.0.insert("if".into());
        visit::visit_expr_if(self, a);
    }
    fn visit_expr_match(&mut self, a: &'a ExprMatch) {
        self.0.insert("match".into());
        visit::visit_expr_match(self, a);
    }
}

/// The functions a body calls, by name.
#[derive(Default)]
struct All(BTreeSet<String>);

impl<'a> Visit<'a> for All {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
}

fn sig(s: &Signature, vis: &Visibility) -> (Value, BTreeSet<String>) {
    let mut s = s.clone();
    let mut rw = Rw { loops: 0, iters: 0, temps: 0, notes: Default::default() };
    rw.visit_signature_mut(&mut s);
    // R9: `impl Bound` in argument position is a type parameter; R10: `Into<Option<u32>>` is `IntoOpt`.
    let mut params = Vec::new();
    struct Named<'a>(&'a mut Vec<TypeParam>);
    impl<'a> VisitMut for Named<'a> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            if let Type::ImplTrait(i) = t {
                let name = quote::format_ident!("P{}_", self.0.len());
                let bounds = &i.bounds;
                self.0.push(parse_quote!(#name: #bounds));
                *t = parse_quote!(#name);
            }
        }
    }
    for i in s.inputs.iter_mut() {
        Named(&mut params).visit_fn_arg_mut(i);
    }
    for mut p in params {
        rw.notes.insert("R9".into());
        if text(&p.bounds).replace(' ', "") == "Into<Option<u32>>" {
            rw.notes.insert("R10".into());
            let id = &p.ident;
            p = parse_quote!(#id: IntoOpt);
        }
        s.generics.params.push(GenericParam::Type(p));
    }
    if !s.generics.params.is_empty() {
        s.generics.lt_token = Some(Default::default());
        s.generics.gt_token = Some(Default::default());
    }
    let inputs: Vec<Value> = s.inputs.iter().map(|i| json!(text(i))).collect();
    let ret = match &s.output {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => json!(text(t)),
    };
    (
        json!({
            "vis": text(vis),
            "generics": text(&s.generics),
            "where": s.generics.where_clause.as_ref().map(|w| text(w)),
            "inputs": inputs,
            "ret": ret,
        }),
        rw.notes,
    )
}

/// R16: a closure that changes a parameter of its function and returns it (so that it owns it)
/// gives it a name of its own first.
struct Closures {
    muts: Vec<Ident>,
    n: usize,
    notes: BTreeSet<String>,
}

struct Mentions<'a>(&'a Ident, usize);

impl<'a, 'b> Visit<'b> for Mentions<'a> {
    fn visit_ident(&mut self, i: &'b Ident) {
        if i == self.0 {
            self.1 += 1;
        }
    }
}

fn mentions(id: &Ident, e: &Expr) -> usize {
    let mut m = Mentions(id, 0);
    m.visit_expr(e);
    m.1
}

impl VisitMut for Closures {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        let body = c.body.clone();
        let mut stmts = match &*body {
            Expr::Block(b) => b.block.stmts.clone(),
            e => vec![Stmt::Expr(e.clone(), None)],
        };
        if let Some(Stmt::Expr(Expr::Path(p), None)) = stmts.last().cloned() {
            if let Some(id) = p.path.get_ident() {
                if self.muts.contains(id) && mentions(id, &body) > 1 {
                    stmts.insert(0, parse_quote!(let mut #id = #id;));
                    self.notes.insert("R16".into());
                }
            }
        }
        let k = format!("{}", self.n);
        self.n += 1;
        stmts.insert(0, parse_quote!(__K!(#k);));
        // R5: a closure that ends in a panic has whatever type is asked of it.
        let marks = stmts.iter().rev().take_while(|s| matches!(s, Stmt::Macro(_))).count();
        if let Some(Stmt::Expr(Expr::Call(p), Some(_))) = stmts.iter().rev().nth(marks).cloned() {
            if path_is(&p.func, &["vpanic"]) {
                stmts.truncate(stmts.len() - marks - 1);
                stmts.push(Stmt::Expr(Expr::Call(p), None));
            }
        }
        c.body = parse_quote!({ #(#stmts)* });
    }
}

/// The texts that a function mentions (not those in the extractor's own marks).
struct Texts(Vec<String>);

impl<'a> Visit<'a> for Texts {
    fn visit_lit_str(&mut self, l: &'a LitStr) {
        self.0.push(l.value());
    }
}

fn func(s: &Signature, vis: &Visibility, block: Option<&Block>) -> Value {
    let (mut v, mut notes) = sig(s, vis);
    let mut body = Value::Null;
    let mut shape = Value::Null;
    if let Some(b) = block {
        let mut b = b.clone();
        let mut c = All::default();
        c.visit_block(&b);
        let mut rw = Rw { loops: 0, iters: 0, temps: 0, notes: Default::default() };
        rw.visit_block_mut(&mut b);
        notes.extend(rw.notes.iter().cloned());
        let muts = s.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &*t.pat { if p.mutability.is_some() { return Some(p.ident.clone()); } } None } else { None })
            .filter(|id| {
                // Mentioned in one closure and nowhere else.
                let mut all = Mentions(id, 0);
                all.visit_block(&b);
                struct Cl<'a>(&'a Ident, Vec<usize>);
                impl<'a, 'b> Visit<'b> for Cl<'a> {
                    fn visit_expr_closure(&mut self, c: &'b ExprClosure) {
                        self.1.push(mentions(self.0, &c.body));
                    }
                }
                let mut cl = Cl(id, vec![]);
                cl.visit_block(&b);
                cl.1.iter().any(|n| *n == all.1 && *n > 0)
            })
            .collect();
        let mut cl = Closures { muts, n: 0, notes: Default::default() };
        cl.visit_block_mut(&mut b);
        notes.extend(cl.notes.iter().cloned());
        let mut texts = Texts(vec![]);
        texts.visit_block(&b);
        texts.0.sort();
        texts.0.dedup();
        // The tail expression.
        if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(Expr::Verbatim(quote!(__T! { #e })), None));
        }
        let mut sk = Skel::default();
        sk.visit_block(block.unwrap());
        shape = json!({"loops": rw.loops, "loop_kinds": sk.0, "calls": c.0.into_iter().collect::<Vec<_>>(), "texts": texts.0});
        body = json!(print(b.stmts.iter().map(|s| s.to_token_stream()).collect()));
    }
    let o = v.as_object_mut().unwrap();
    o.insert("name".into(), json!(s.ident.to_string()));
    o.insert("kind".into(), json!("fn"));
    o.insert("body".into(), body);
    o.insert("shape".into(), shape);
    o.insert("rules".into(), json!(notes.into_iter().collect::<Vec<_>>()));
    o.insert("line".into(), json!(s.ident.span().start().line));
    v
}

#[derive(Default)]
struct Skel(Vec<String>);

impl<'a> Visit<'a> for Skel {
    fn visit_expr_while(&mut self, a: &'a ExprWhile) {
        self.0.push(format!("while {}", text(&a.cond)));
        visit::visit_expr_while(self, a);
    }
    fn visit_expr_loop(&mut self, a: &'a ExprLoop) {
        self.0.push("loop".into());
        visit::visit_expr_loop(self, a);
    }
    fn visit_expr_for_loop(&mut self, a: &'a ExprForLoop) {
        self.0.push(format!("for {} in {}", text(&a.pat), text(&a.expr)));
        visit::visit_expr_for_loop(self, a);
    }
}

fn rw_text<T: ToTokens + Clone>(x: &T, f: impl Fn(&mut Rw, &mut T)) -> String {
    let mut y = x.clone();
    let mut rw = Rw { loops: 0, iters: 0, temps: 0, notes: Default::default() };
    f(&mut rw, &mut y);
    text(&y)
}

fn gen_texts(g: &Generics) -> (String, Value) {
    let mut g = g.clone();
    let mut rw = Rw { loops: 0, iters: 0, temps: 0, notes: Default::default() };
    rw.visit_generics_mut(&mut g);
    let w = g.where_clause.take();
    // Duplicate bounds (`T: State + State`) come from the derive macro.
    (text(&g), w.map(|w| json!(text(&w))).unwrap_or(Value::Null))
}

fn walk(items: &[Item], path: &str, out: &mut Vec<Value>) {
    let sub = |n: &str| if path.is_empty() { n.to_string() } else { format!("{}::{}", path, n) };
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    if m.ident != "tests" {
                        walk(items, &sub(&m.ident.to_string()), out);
                    }
                }
            }
            Item::Const(c) => {
                if let Expr::Block(b) = &*c.expr {
                    let items: Vec<Item> = b
                        .block
                        .stmts
                        .iter()
                        .filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None })
                        .collect();
                    if !items.is_empty() {
                        walk(&items, &sub(&c.ident.to_string()), out);
                        continue;
                    }
                }
                out.push(json!({"kind": "const", "path": path, "name": c.ident.to_string(),
                    "text": rw_text(c, |r, x| { r.visit_attributes_mut(&mut x.attrs); r.visit_type_mut(&mut x.ty); r.visit_expr_mut(&mut x.expr) })}));
            }
            Item::Struct(s) => {
                let fields: Vec<Value> = s.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), rw_text(&f.ty, |r, x| r.visit_type_mut(x)), text(&f.vis)])).collect();
                out.push(json!({"kind": "struct", "path": path, "name": s.ident.to_string(), "generics": gen_texts(&s.generics).0, "where": gen_texts(&s.generics).1,
                    "tuple": matches!(s.fields, Fields::Unnamed(_)), "unit": matches!(s.fields, Fields::Unit), "fields": fields}));
            }
            Item::Enum(s) => {
                let vs: Vec<Value> = s
                    .variants
                    .iter()
                    .map(|v| {
                        let fields: Vec<Value> = v.fields.iter().map(|f| json!([f.ident.as_ref().map(|i| i.to_string()), rw_text(&f.ty, |r, x| r.visit_type_mut(x))])).collect();
                        json!({"name": v.ident.to_string(), "fields": fields, "tuple": matches!(v.fields, Fields::Unnamed(_)), "unit": matches!(v.fields, Fields::Unit),
                            "disc": v.discriminant.as_ref().map(|d| text(&d.1))})
                    })
                    .collect();
                out.push(json!({"kind": "enum", "path": path, "name": s.ident.to_string(), "generics": gen_texts(&s.generics).0, "where": gen_texts(&s.generics).1, "variants": vs}));
            }
            Item::Fn(f) => {
                let mut v = func(&f.sig, &f.vis, Some(&f.block));
                v.as_object_mut().unwrap().insert("path".into(), json!(path));
                out.push(v);
            }
            Item::Type(t) => {
                out.push(json!({"kind": "type", "path": path, "name": t.ident.to_string(), "text": rw_text(t, |r, x| { r.visit_attributes_mut(&mut x.attrs); r.visit_type_mut(&mut x.ty) })}));
            }
            Item::Trait(t) => {
                let mut items = Vec::new();
                for i in &t.items {
                    match i {
                        TraitItem::Fn(f) => items.push(func(&f.sig, &Visibility::Inherited, f.default.as_ref())),
                        TraitItem::Const(c) => items.push(json!({"kind": "const", "name": c.ident.to_string(), "text": rw_text(c, |r, x| { r.visit_attributes_mut(&mut x.attrs); r.visit_type_mut(&mut x.ty) })})),
                        TraitItem::Type(c) => items.push(json!({"kind": "type", "name": c.ident.to_string(), "text": text(c)})),
                        _ => (),
                    }
                }
                let sup: Vec<String> = t.supertraits.iter().map(|b| rw_text(b, |r, x| r.visit_type_param_bound_mut(x))).collect();
                out.push(json!({"kind": "trait", "path": path, "name": t.ident.to_string(), "generics": gen_texts(&t.generics).0, "where": gen_texts(&t.generics).1, "supers": sup, "items": items}));
            }
            Item::Impl(t) => {
                let mut items = Vec::new();
                let eq = t.trait_.as_ref().map_or(false, |(_, p, _)| p.segments.last().map_or(false, |s| s.ident == "PartialEq"));
                IN_EQ.with(|x| x.set(eq));
                for i in &t.items {
                    match i {
                        ImplItem::Fn(f) => items.push(func(&f.sig, &f.vis, Some(&f.block))),
                        ImplItem::Const(c) => items.push(json!({"kind": "const", "name": c.ident.to_string(), "text": rw_text(c, |r, x| { r.visit_attributes_mut(&mut x.attrs); r.visit_type_mut(&mut x.ty); r.visit_expr_mut(&mut x.expr) })})),
                        ImplItem::Type(c) => items.push(json!({"kind": "type", "name": c.ident.to_string(), "text": rw_text(c, |r, x| { r.visit_type_mut(&mut x.ty) })})),
                        _ => (),
                    }
                }
                IN_EQ.with(|x| x.set(false));
                let tr = t.trait_.as_ref().map(|(_, p, _)| rw_text(p, |r, x| r.visit_path_mut(x)));
                out.push(json!({"kind": "impl", "path": path, "trait": tr, "self": rw_text(&t.self_ty, |r, x| r.visit_type_mut(x)),
                    "generics": gen_texts(&t.generics).0, "where": gen_texts(&t.generics).1, "items": items}));
            }
            _ => (),
        }
    }
}

/// Reads the modules a file declares.
fn load(items: &mut Vec<Item>, dir: &std::path::Path) {
    for i in items.iter_mut() {
        if let Item::Mod(m) = i {
            let name = m.ident.to_string();
            let name = name.trim_start_matches("r#");
            if let Some((_, items)) = &mut m.content {
                load(items, &dir.join(name));
            } else {
                let f = [dir.join(format!("{}.rs", name)), dir.join(name).join("mod.rs")].iter().find(|f| f.exists()).cloned();
                if let Some(f) = f {
                    let mut file = syn::parse_file(&std::fs::read_to_string(&f).unwrap()).expect("cannot parse the source");
                    load(&mut file.items, &dir.join(name));
                    m.content = Some((Default::default(), file.items));
                }
            }
        }
    }
}

fn main() {
    let path = std::env::args().nth(1).unwrap();
    let src = std::fs::read_to_string(&path).unwrap();
    let mut file = syn::parse_file(&src).expect("cannot parse the expanded source");
    if std::env::args().nth(2).map_or(false, |w| w == "--tree") {
        load(&mut file.items, std::path::Path::new(&path).parent().unwrap());
    }
    let mut out = Vec::new();
    walk(&file.items, "", &mut out);
    println!("{}", serde_json::to_string(&out).unwrap());
}
