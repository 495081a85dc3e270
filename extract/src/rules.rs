//! Rewriting rules.  Every rule is purely syntactic and applied to whatever the source contains; none
//! of them looks for particular text of the checked-in source.  Numbering as in DESIGN.md.
use crate::spec::FnSpec;
use crate::FnSrc;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::parse::Parser;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

pub struct Env {
    pub features: Vec<String>,
    pub macros: BTreeMap<String, TokenStream>,
    pub helpers: Vec<FnSrc>,
    pub all_names: BTreeMap<String, usize>,
    pub async_names: std::collections::BTreeSet<String>,
    /// the files in which a type has functions
    pub ty_files: BTreeMap<String, std::collections::BTreeSet<String>>,
}

#[derive(Default, Clone, Debug)]
pub struct LoopInfo {
    pub ord: usize,
    pub kind: String,
    pub auto_inv: Vec<String>,
    pub auto_dec: Option<String>,
    /// locals declared outside the loop and assigned inside it, in declaration order
    pub carried: Vec<String>,
    pub declared: Vec<String>,
    pub fixed: BTreeMap<String, String>,
}
impl LoopInfo {
    pub fn key(&self) -> String {
        self.ord.to_string()
    }
    /// Resolves `$name` placeholders.
    pub fn subst(&self, text: &str, all_text: &str) -> Result<String, String> {
        let names = |t: &str| -> Vec<String> {
            let mut v = vec![];
            let b: Vec<char> = t.chars().collect();
            let mut i = 0;
            while i < b.len() {
                if b[i] == '$' {
                    let mut j = i + 1;
                    while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                        j += 1;
                    }
                    let n: String = b[i + 1..j].iter().collect();
                    if !v.contains(&n) {
                        v.push(n);
                    }
                    i = j;
                } else {
                    i += 1;
                }
            }
            v
        };
        let wanted = names(all_text);
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        let mut taken: Vec<String> = vec![];
        for w in &wanted {
            if let Some(f) = self.fixed.get(w) {
                map.insert(w.clone(), f.clone());
            } else if self.carried.contains(w) || self.declared.contains(w) {
                map.insert(w.clone(), w.clone());
                taken.push(w.clone());
            }
        }
        for w in &wanted {
            if !map.contains_key(w) {
                if let Some(c) = self.carried.iter().find(|c| !taken.contains(c)) {
                    map.insert(w.clone(), c.clone());
                    taken.push(c.clone());
                }
            }
        }
        let mut out = text.to_string();
        let mut mine = names(text);
        mine.sort_by_key(|n| std::cmp::Reverse(n.len()));
        for n in mine {
            match map.get(&n) {
                Some(v) => out = out.replace(&format!("${n}"), v),
                None => return Err(format!("${n}")),
            }
        }
        Ok(out)
    }
}

// ---------------------------------------------------------------- T1 cfg / attributes

fn cfg_pred(ts: TokenStream, features: &[String]) -> bool {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    match toks.as_slice() {
        [TokenTree::Ident(i), TokenTree::Group(g)] => {
            let parts = split_commas(g.stream());
            match i.to_string().as_str() {
                "not" => !cfg_pred(g.stream(), features),
                "any" => parts.into_iter().any(|p| cfg_pred(p, features)),
                "all" => parts.into_iter().all(|p| cfg_pred(p, features)),
                _ => false,
            }
        }
        [TokenTree::Ident(i)] => match i.to_string().as_str() {
            "debug_assertions" => true,
            _ => false,
        },
        [TokenTree::Ident(i), TokenTree::Punct(_), TokenTree::Literal(l)] => {
            let v = l.to_string().trim_matches('"').to_string();
            i == "feature" && features.contains(&v)
        }
        _ => false,
    }
}
fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur = TokenStream::new();
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => out.push(std::mem::take(&mut cur)),
            _ => cur.extend([t]),
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
pub fn cfg_ok(attrs: &[syn::Attribute], features: &[String]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match &a.meta {
                syn::Meta::List(l) => cfg_pred(l.tokens.clone(), features),
                _ => true,
            }
        } else {
            true
        }
    })
}
pub fn item_attrs(i: &syn::Item) -> &[syn::Attribute] {
    match i {
        syn::Item::Fn(x) => &x.attrs,
        syn::Item::Impl(x) => &x.attrs,
        syn::Item::Struct(x) => &x.attrs,
        syn::Item::Enum(x) => &x.attrs,
        syn::Item::Const(x) => &x.attrs,
        syn::Item::Type(x) => &x.attrs,
        syn::Item::Trait(x) => &x.attrs,
        syn::Item::Macro(x) => &x.attrs,
        syn::Item::Mod(x) => &x.attrs,
        syn::Item::Use(x) => &x.attrs,
        _ => &[],
    }
}
fn stmt_attrs(s: &Stmt) -> Vec<syn::Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Macro(m) => m.attrs.clone(),
        Stmt::Expr(e, _) => expr_attrs(e),
        Stmt::Item(i) => item_attrs(i).to_vec(),
    }
}
fn expr_attrs(e: &Expr) -> Vec<syn::Attribute> {
    macro_rules! a { ($($v:ident),*) => { match e { $(Expr::$v(x) => x.attrs.clone(),)* _ => vec![] } } }
    a!(Array, Assign, Binary, Block, Break, Call, Cast, Closure, Continue, Field, ForLoop, If, Index, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Return, Struct, Try, Tuple, Unary, Unsafe, While)
}
fn clear_expr_attrs(e: &mut Expr) {
    macro_rules! a { ($($v:ident),*) => { match e { $(Expr::$v(x) => x.attrs.clear(),)* _ => {} } } }
    a!(Array, Assign, Binary, Block, Break, Call, Cast, Closure, Continue, Field, ForLoop, If, Index, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Return, Struct, Try, Tuple, Unary, Unsafe, While)
}

struct Cfg<'a> {
    features: &'a [String],
}
impl VisitMut for Cfg<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| cfg_ok(&stmt_attrs(s), self.features));
        for s in b.stmts.iter_mut() {
            match s {
                Stmt::Local(l) => l.attrs.clear(),
                Stmt::Macro(m) => m.attrs.clear(),
                Stmt::Expr(e, _) => clear_expr_attrs(e),
                _ => {}
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut syn::ExprStruct) {
        let keep: Vec<_> = e.fields.iter().filter(|f| cfg_ok(&f.attrs, self.features)).cloned().collect();
        e.fields.clear();
        for mut f in keep {
            f.attrs.clear();
            e.fields.push(f);
        }
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_expr_match_mut(&mut self, e: &mut syn::ExprMatch) {
        e.arms.retain(|a| cfg_ok(&a.attrs, self.features));
        for a in e.arms.iter_mut() {
            a.attrs.clear();
        }
        visit_mut::visit_expr_match_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------------------------------------------------------------- T2 macros

fn expand_local(def: &TokenStream, args: TokenStream) -> Option<TokenStream> {
    // single-rule macros `($a:expr, ..) => {{ .. }};`
    let toks: Vec<TokenTree> = def.clone().into_iter().collect();
    let TokenTree::Group(pat) = toks.first()? else { return None };
    let TokenTree::Group(body) = toks.get(3)? else { return None };
    let mut names = vec![];
    for p in split_commas(pat.stream()) {
        let p: Vec<TokenTree> = p.into_iter().collect();
        match p.as_slice() {
            [TokenTree::Punct(d), TokenTree::Ident(n), TokenTree::Punct(_), TokenTree::Ident(_)] if d.as_char() == '$' => {
                names.push(n.to_string())
            }
            _ => return None,
        }
    }
    let args = split_commas(args);
    if args.len() != names.len() {
        return None;
    }
    fn go(ts: TokenStream, names: &[String], args: &[TokenStream]) -> TokenStream {
        let mut out = TokenStream::new();
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let (TokenTree::Punct(p), Some(TokenTree::Ident(n))) = (&toks[i], toks.get(i + 1)) {
                if p.as_char() == '$' {
                    if let Some(k) = names.iter().position(|x| n == x) {
                        out.extend(args[k].clone());
                        i += 2;
                        continue;
                    }
                }
            }
            match &toks[i] {
                TokenTree::Group(g) => {
                    out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), names, args)))])
                }
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    Some(go(body.stream(), &names, &args))
}

struct Macros<'a> {
    env: &'a Env,
    notes: &'a mut Vec<String>,
}
impl Macros<'_> {
    fn expand(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        if let Some(d) = self.env.macros.get(&name) {
            let ts = expand_local(d, m.tokens.clone())?;
            return match syn::parse2::<Expr>(ts.clone()) {
                Ok(e) => Some(e),
                Err(_) => syn::parse2::<Expr>(quote!({ #ts })).ok(),
            };
        }
        let args = || {
            syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()
        };
        match name.as_str() {
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let a = args()?;
                let (l, r) = (a.get(0)?.clone(), a.get(1)?.clone());
                Some(if name.ends_with("_eq") {
                    parse_quote!(crate::prelude::check_assert((#l) == (#r)))
                } else {
                    parse_quote!(crate::prelude::check_assert((#l) != (#r)))
                })
            }
            "debug_assert" | "assert" => {
                let c = args()?.get(0)?.clone();
                Some(parse_quote!(crate::prelude::check_assert(#c)))
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Some(parse_quote!(crate::prelude::check_unreachable())),
            "matches" => {
                let f = |input: syn::parse::ParseStream| -> syn::Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<syn::Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(syn::Token![if]) {
                        input.parse::<syn::Token![if]>()?;
                        Some(input.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<syn::Token![,]>>()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = f.parse2(m.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => parse_quote!((match #e { #p if #g => true, _ => false })),
                    None => parse_quote!((match #e { #p => true, _ => false })),
                })
            }
            "cfg" => {
                let b = cfg_pred(m.tokens.clone(), &self.env.features);
                Some(if b { parse_quote!(true) } else { parse_quote!(false) })
            }
            "eprintln" | "println" | "dbg" => Some(parse_quote!({})),
            "vec" => None,
            _ => {
                self.notes.push(format!("macro `{name}!` not expanded"));
                None
            }
        }
    }
}
impl VisitMut for Macros<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..8 {
            let Expr::Macro(m) = e else { break };
            match self.expand(&m.mac) {
                Some(x) => *e = x,
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = self.expand(&m.mac) {
                let diverges = matches!(&x, Expr::Call(c) if c.func.to_token_stream().to_string().contains("check_unreachable"));
                *s = Stmt::Expr(x, if diverges || m.semi_token.is_some() { Some(Default::default()) } else { None });
                if diverges {
                    let Stmt::Expr(x, _) = s else { unreachable!() };
                    *s = Stmt::Expr(x.clone(), None);
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------------------------------------------------------------- analyses

struct HasReturn(bool, bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.1 = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn has_return_stmts(s: &[Stmt]) -> bool {
    let mut h = HasReturn(false, false);
    for x in s {
        h.visit_stmt(x);
    }
    h.0
}
fn has_return_expr(e: &Expr) -> bool {
    let mut h = HasReturn(false, false);
    h.visit_expr(e);
    h.0
}
fn has_try(b: &Block) -> bool {
    let mut h = HasReturn(false, false);
    h.visit_block(b);
    h.1
}

/// Replaces early returns by nesting.  None: not possible (a `return` inside a loop).
pub fn structurize(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    if !has_return_stmts(&stmts) {
        return Some(stmts);
    }
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        if !has_return_stmts(std::slice::from_ref(&s)) {
            out.push(s);
            continue;
        }
        let rest: Vec<Stmt> = it.collect();
        match s {
            Stmt::Expr(e, semi) => {
                let is_tail = rest.is_empty() && semi.is_none();
                out.push(Stmt::Expr(push_rest(e, None, rest, is_tail)?, None));
            }
            Stmt::Local(l) => {
                let init = l.init.clone()?;
                if let Some((_, div)) = init.diverge {
                    if has_return_expr(&init.expr) {
                        return None;
                    }
                    let (p, e) = (l.pat.clone(), init.expr);
                    let then = structurize(rest)?;
                    let div = structurize(to_stmts(*div))?;
                    out.push(Stmt::Expr(parse_quote!(if let #p = #e { #(#then)* } else { #(#div)* }), None));
                } else {
                    let pat = l.pat.clone();
                    out.push(Stmt::Expr(push_rest(*init.expr, Some(pat), rest, false)?, None));
                }
            }
            _ => return None,
        }
        return Some(out);
    }
    Some(out)
}
fn to_stmts(e: Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts,
        e => vec![Stmt::Expr(e, None)],
    }
}
/// `e` (bound to `pat` if given) followed by `rest`, with returns in `e` removed.
fn push_rest(e: Expr, pat: Option<Pat>, rest: Vec<Stmt>, is_tail: bool) -> Option<Expr> {
    let cont = |mut st: Vec<Stmt>| -> Option<Vec<Stmt>> {
        // st: statements of a branch, whose tail is the branch value
        if is_tail && pat.is_none() {
            return structurize(st);
        }
        match st.pop() {
            None => {
                if let Some(p) = &pat {
                    st.push(parse_quote!(let #p = ();));
                }
            }
            Some(Stmt::Expr(t, None)) if !matches!(t, Expr::Return(_)) => match &pat {
                Some(p) => st.push(parse_quote!(let #p = #t;)),
                None => st.push(Stmt::Expr(t, Some(Default::default()))),
            },
            Some(o) => st.push(o),
        }
        st.extend(rest.clone());
        structurize(st)
    };
    match e {
        Expr::Return(r) => Some(r.expr.map(|e| *e).unwrap_or(parse_quote!(()))),
        Expr::Paren(p) => push_rest(*p.expr, pat, rest, is_tail),
        Expr::Block(b) if b.label.is_none() => {
            let st = cont(b.block.stmts)?;
            Some(parse_quote!({ #(#st)* }))
        }
        Expr::If(i) => {
            if has_return_expr(&i.cond) {
                return None;
            }
            let then = cont(i.then_branch.stmts)?;
            let els = match i.else_branch {
                Some((_, e)) => cont(match *e {
                    Expr::Block(b) => b.block.stmts,
                    o => vec![Stmt::Expr(o, None)],
                })?,
                None => cont(vec![])?,
            };
            let c = i.cond;
            Some(parse_quote!(if #c { #(#then)* } else { #(#els)* }))
        }
        Expr::Match(mut m) => {
            if has_return_expr(&m.expr) {
                return None;
            }
            for a in m.arms.iter_mut() {
                let st = cont(to_stmts((*a.body).clone()))?;
                a.body = Box::new(parse_quote!({ #(#st)* }));
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}

/// `e?` -> match with a return, by the declared return type.
struct Try<'a> {
    ret: &'a syn::ReturnType,
    n: usize,
}
impl VisitMut for Try<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let inner = &t.expr;
            let ty = match self.ret {
                syn::ReturnType::Type(_, t) => crate::type_last_ident(t),
                _ => String::new(),
            };
            self.n += 1;
            let v = format_ident!("__t{}", self.n);
            if ty == "Option" {
                *e = parse_quote!(match #inner { Some(#v) => #v, None => return None });
            } else if ty == "Result" {
                *e = parse_quote!(match #inner { Ok(#v) => #v, Err(#v) => return Err(#v) });
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

// ---------------------------------------------------------------- T13 helper inlining

struct Rename {
    from: String,
    to: syn::Ident,
}
impl VisitMut for Rename {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if *i == self.from {
            *i = self.to.clone();
        }
    }
}
const STD_NAMES: &[&str] = &[
    "len", "iter", "get", "get_mut", "insert", "remove", "new", "clone", "drop", "drain", "clear", "map", "next", "push", "pop",
    "default", "from", "into", "eq", "hash", "fmt", "read", "write", "store", "load", "contains", "is_empty", "unwrap", "expect",
    "take", "replace", "retain", "reserve", "capacity", "min", "max", "with", "call", "poll", "with_capacity",
];
fn mentions(ts: TokenStream, name: &str) -> usize {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) => (i == name) as usize,
            proc_macro2::TokenTree::Group(g) => mentions(g.stream(), name),
            _ => 0,
        })
        .sum()
}
/// replaces every call of `name` in the block by the body of the closure; None: `name` is used otherwise, or
/// a variable of the closure would be captured
fn subst_closure(block: &Block, name: &str, closure: &Expr) -> Option<Block> {
    struct V<'a> {
        name: &'a str,
        c: &'a Expr,
        ok: bool,
    }
    impl VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(x) = e {
                if matches!(&*x.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                    match inline_closure(self.c, x.args.iter().cloned().collect()) {
                        Some(y) => *e = y,
                        None => self.ok = false,
                    }
                }
            }
        }
    }
    let mut declared = PatNames(vec![]);
    declared.visit_block(block);
    let free = closure.to_token_stream();
    if declared.0.iter().any(|d| mentions(free.clone(), d) > 0) {
        return None;
    }
    let mut b = block.clone();
    let mut v = V { name, c: closure, ok: true };
    v.visit_block_mut(&mut b);
    (v.ok && mentions(b.to_token_stream(), name) == 0).then_some(b)
}
/// T17 `let f = || body;` used once, as an argument or a call, is moved to its use
struct LocalClosures;
impl VisitMut for LocalClosures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let (Expr::Closure(c), None) = (strip_paren(&init.expr), &init.diverge) {
                        let name = p.ident.to_string();
                        let rest: TokenStream = b.stmts[i + 1..].iter().map(|s| s.to_token_stream()).collect();
                        if c.capture.is_none() && mentions(rest, &name) == 1 {
                            let mut v = PutClosure { name, c: (*init.expr).clone(), done: false };
                            let mut tail: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                            for s in tail.iter_mut() {
                                v.visit_stmt_mut(s);
                            }
                            if v.done {
                                b.stmts.truncate(i);
                                b.stmts.extend(tail);
                                continue;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
}
struct PutClosure {
    name: String,
    c: Expr,
    done: bool,
}
impl VisitMut for PutClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(x) = e {
            if matches!(&*x.func, Expr::Path(p) if p.path.is_ident(&self.name)) {
                if let Some(y) = inline_closure(&self.c, x.args.iter().cloned().collect()) {
                    *e = y;
                    self.done = true;
                    return;
                }
            }
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.name)) {
            *e = self.c.clone();
            self.done = true;
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct NameSelf {
    to: syn::Ident,
}
impl VisitMut for NameSelf {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(s) = p.segments.first_mut() {
            if s.ident == "Self" {
                s.ident = self.to.clone();
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}
/// T21: awaiting an `async fn` of the crate is calling it, awaiting a future parameter is calling
/// the function it stands for, and awaiting any other future polls it until it is ready
struct Awaits<'a> {
    names: &'a std::collections::BTreeSet<String>,
    futures: Vec<String>,
}
impl VisitMut for Awaits<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Await(a) = e {
            let b = (*a.base).clone();
            let name = match strip_paren(&b) {
                Expr::MethodCall(m) => Some(m.method.to_string()),
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                    _ => None,
                },
                _ => None,
            };
            let var = match strip_paren(&b) {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                _ => None,
            };
            *e = if name.map_or(false, |n| self.names.contains(&n)) {
                b
            } else if var.map_or(false, |v| self.futures.contains(&v)) {
                parse_quote!(#b())
            } else {
                parse_quote!(crate::sync_placeholder::awaited(#b))
            };
        }
    }
}
/// the parameters that are futures
fn futures(sig: &syn::Signature) -> Vec<String> {
    sig.inputs
        .iter()
        .filter_map(|i| match i {
            syn::FnArg::Typed(t) if t.ty.to_token_stream().to_string().contains("impl Future") => {
                Some(t.pat.to_token_stream().to_string().trim_start_matches("mut ").to_string())
            }
            _ => None,
        })
        .collect()
}
struct Inline<'a> {
    env: &'a Env,
    cur: &'a FnSrc,
    depth: usize,
    n: usize,
    inlined: &'a mut Vec<String>,
    notes: &'a mut Vec<String>,
}
impl Inline<'_> {
    fn body(&mut self, h: &FnSrc, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        let mut block = h.block.clone();
        Cfg { features: &self.env.features }.visit_block_mut(&mut block);
        Macros { env: self.env, notes: self.notes }.visit_block_mut(&mut block);
        Awaits { names: &self.env.async_names, futures: futures(&h.sig) }.visit_block_mut(&mut block);
        if has_try(&block) {
            Try { ret: &h.sig.output, n: 500 + self.n * 10 }.visit_block_mut(&mut block);
        }
        let stmts = structurize(block.stmts)?;
        let mut block = Block { brace_token: Default::default(), stmts };
        if !h.self_ty.is_empty() && h.self_ty != self.cur.self_ty {
            NameSelf { to: format_ident!("{}", h.self_ty) }.visit_block_mut(&mut block);
        }
        let mut pats: Vec<Pat> = vec![];
        let mut vals: Vec<Expr> = vec![];
        let mut lets: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        for inp in &h.sig.inputs {
            match inp {
                syn::FnArg::Receiver(r) => {
                    let recv = recv.clone()?;
                    let is_self = matches!(&recv, Expr::Path(p) if p.path.is_ident("self"));
                    if !is_self {
                        self.n += 1;
                        let id = format_ident!("__self{}", self.n);
                        Rename { from: "self".into(), to: id.clone() }.visit_block_mut(&mut block);
                        let val: Expr = if r.reference.is_some() {
                            if r.mutability.is_some() {
                                parse_quote!(&mut (#recv))
                            } else {
                                parse_quote!(&(#recv))
                            }
                        } else {
                            recv
                        };
                        lets.push(parse_quote!(let #id = #val;));
                    }
                }
                syn::FnArg::Typed(t) => {
                    let a = ai.next()?;
                    // T17 a closure literal handed to a helper is put where the helper calls it
                    if let (Pat::Ident(p), Expr::Closure(c)) = (&*t.pat, strip_paren(&a)) {
                        if c.capture.is_none() {
                            if let Some(b) = subst_closure(&block, &p.ident.to_string(), &a) {
                                block = b;
                                continue;
                            }
                        }
                    }
                    let simple = matches!(&*t.ty, syn::Type::Path(p) if p.path.get_ident().map_or(false, |i| ["u8","u16","u32","u64","usize","bool"].contains(&i.to_string().as_str())));
                    let a: Expr = if simple {
                        match &a {
                            Expr::Lit(_) => {
                                let ty = &t.ty;
                                parse_quote!((#a as #ty))
                            }
                            _ => a,
                        }
                    } else {
                        a
                    };
                    pats.push((*t.pat).clone());
                    vals.push(a);
                }
            }
        }
        self.inlined.push(h.key.clone());
        match pats.len() {
            0 => {}
            1 => {
                let (p, v) = (&pats[0], &vals[0]);
                // `let x = x;` is a no-op binding and would needlessly move
                if p.to_token_stream().to_string() != v.to_token_stream().to_string() {
                    lets.push(parse_quote!(let #p = #v;));
                }
            }
            _ => {
                let keep: Vec<usize> = (0..pats.len())
                    .filter(|&i| pats[i].to_token_stream().to_string() != vals[i].to_token_stream().to_string())
                    .collect();
                // evaluate all arguments first, then bind
                let tmp: Vec<syn::Ident> = keep.iter().map(|i| { self.n += 1; format_ident!("__a{}_{}", self.n, i) }).collect();
                for (t, i) in tmp.iter().zip(&keep) {
                    let v = &vals[*i];
                    lets.push(parse_quote!(let #t = #v;));
                }
                for (t, i) in tmp.iter().zip(&keep) {
                    let p = &pats[*i];
                    lets.push(parse_quote!(let #p = #t;));
                }
            }
        }
        let st = block.stmts;
        if lets.is_empty() && st.len() == 1 {
            if let Stmt::Expr(e, None) = &st[0] {
                return Some(parse_quote!((#e)));
            }
        }
        Some(parse_quote!({ #(#lets)* #(#st)* }))
    }
    fn find(&self, self_ty: Option<&str>, name: &str) -> Option<FnSrc> {
        let all: Vec<&FnSrc> = self.env.helpers.iter().filter(|h| h.sig.ident == name && self_ty.map_or(true, |t| h.self_ty == t)).collect();
        let here: Vec<&FnSrc> = all.iter().filter(|h| h.file == self.cur.file).copied().collect();
        // types of the same name in several files are different types
        if self_ty.map_or(false, |t| self.env.ty_files.get(t).map_or(false, |f| f.len() > 1 && f.contains(&self.cur.file))) {
            return match here.as_slice() {
                [f] => Some((*f).clone()),
                _ => None,
            };
        }
        match (here.as_slice(), all.as_slice()) {
            ([f], _) | ([], [f]) => Some((*f).clone()),
            _ => None,
        }
    }
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth == 0 {
            return;
        }
        let found = match &*e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                let is_self = matches!(&recv, Expr::Path(p) if p.path.is_ident("self"));
                let h = if is_self {
                    self.find(Some(&self.cur.self_ty), &name)
                } else if STD_NAMES.contains(&name.as_str()) || self.env.all_names.get(&name).copied().unwrap_or(0) > 1 {
                    None
                } else {
                    self.find(None, &name).filter(|h| !h.self_ty.is_empty())
                };
                h.map(|h| (h, Some(recv), m.args.iter().cloned().collect::<Vec<_>>()))
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().cloned().unwrap_or_default();
                    let h = if segs.len() == 1 {
                        self.find(Some(""), &name)
                    } else {
                        let t = &segs[segs.len() - 2];
                        let t = if t == "Self" { self.cur.self_ty.clone() } else { t.clone() };
                        self.find(Some(&t), &name)
                    };
                    h.and_then(|h| {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        let has_recv = h.sig.receiver().is_some();
                        let recv = if has_recv {
                            if args.is_empty() {
                                return None;
                            }
                            let r = args.remove(0);
                            // Type::f(self, ..) / f(&mut x, ..): dereference the reference once
                            Some(match r {
                                Expr::Reference(r) => *r.expr,
                                r => r,
                            })
                        } else {
                            None
                        };
                        Some((h, recv, args))
                    })
                }
                _ => None,
            },
            _ => None,
        };
        if let Some((h, recv, args)) = found {
            match self.body(&h, recv, args) {
                Some(x) => {
                    *e = x;
                    self.depth -= 1;
                    self.visit_expr_mut(e);
                    self.depth += 1;
                }
                None => self.notes.push(format!("helper {} could not be inlined", h.key)),
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------------------------------------------------------------- T3..T9 expressions

const ITER_ROOTS: &[&str] = &["iter", "into_iter", "drain", "iter_mut", "iter_hash", "iter_entries"];
const ITER_ADAPT: &[&str] = &["map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied"];
const ITER_SINKS: &[&str] = &["collect", "sum", "all", "any", "count", "for_each", "position"];

fn has_infer(t: &syn::Type) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_type_infer(&mut self, _: &'a syn::TypeInfer) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_type(t);
    v.0
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

/// (root, adapters) if `e` is an iterator chain.
fn iter_chain(e: &Expr) -> Option<(Expr, Vec<(String, Vec<Expr>)>)> {
    match strip_paren(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if ITER_ADAPT.contains(&n.as_str()) {
                let (r, mut a) = iter_chain(&m.receiver)?;
                a.push((n, m.args.iter().cloned().collect()));
                Some((r, a))
            } else if ITER_ROOTS.contains(&n.as_str()) {
                Some((e.clone(), vec![]))
            } else {
                None
            }
        }
        Expr::Range(_) => Some((strip_paren(e).clone(), vec![])),
        _ => None,
    }
}

fn closure_parts(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match strip_paren(e) {
        Expr::Closure(c) => Some((
            c.inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                })
                .collect(),
            (*c.body).clone(),
        )),
        _ => None,
    }
}
/// `let pat = val;`, with `&x` patterns turned into a dereference.
fn bind(pat: &Pat, val: Expr) -> Vec<Stmt> {
    match pat {
        Pat::Reference(r) => bind(&r.pat, parse_quote!(*#val)),
        Pat::Paren(p) => bind(&p.pat, val),
        Pat::Type(t) => bind(&t.pat, val),
        Pat::Wild(_) => vec![],
        p => vec![parse_quote!(let #p = #val;)],
    }
}
fn inline_closure(c: &Expr, args: Vec<Expr>) -> Option<Expr> {
    match closure_parts(c) {
        Some((pats, body)) => {
            let mut st: Vec<Stmt> = vec![];
            for (p, a) in pats.iter().zip(args) {
                st.extend(bind(p, a));
            }
            st.extend(structurize(to_stmts(body))?);
            Some(parse_quote!({ #(#st)* }))
        }
        None => {
            // a function path or a closure variable
            if let Expr::Path(_) = c {
                return Some(parse_quote!(#c(#(#args),*)));
            }
            Some(parse_quote!((#c)(#(#args),*)))
        }
    }
}

struct Exprs<'a> {
    n_coll: usize,
    acc_types: &'a BTreeMap<usize, String>,
    n: usize,
    raw: Vec<String>,
    bools: Vec<String>,
    notes: &'a mut Vec<String>,
}
impl Exprs<'_> {
    fn fresh(&mut self, p: &str) -> syn::Ident {
        self.n += 1;
        format_ident!("__{}{}", p, self.n)
    }
    fn root_iter(&mut self, root: &Expr) -> Expr {
        if let Expr::MethodCall(m) = strip_paren(root) {
            let r = &m.receiver;
            match m.method.to_string().as_str() {
                "drain" if m.args.len() == 1 => return parse_quote!(crate::prelude::vec_drain(&mut #r)),
                "iter_hash" => {
                    let h = &m.args[0];
                    return parse_quote!(#r.probe(#h));
                }
                "iter" => return parse_quote!(crate::prelude::IterRefs::iter_refs(&#r)),
                _ => {}
            }
        }
        // `&*xs` / `&xs` as the source of a `for`
        match strip_paren(root) {
            Expr::Reference(r) if r.mutability.is_none() => {
                let x = match strip_paren(&r.expr) {
                    Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => (*u.expr).clone(),
                    x => x.clone(),
                };
                parse_quote!(crate::prelude::IterRefs::iter_refs(&#x))
            }
            x => x.clone(),
        }
    }
    /// applies the adapters to element `x`, then `sink`
    fn adapt(&mut self, x: Expr, ads: &[(String, Vec<Expr>)], sink: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Option<Vec<Stmt>> {
        if ads.is_empty() {
            return Some(sink(self, x));
        }
        let (name, args) = &ads[0];
        let v = self.fresh("v");
        let inner = self.adapt(parse_quote!(#v), &ads[1..], sink)?;
        Some(match name.as_str() {
            "map" => {
                let b = inline_closure(&args[0], vec![x])?;
                parse_quote!(let #v = #b; #(#inner)*)
            }
            "filter_map" | "flat_map" => {
                let b = inline_closure(&args[0], vec![x])?;
                parse_quote!(match #b { Some(#v) => { #(#inner)* } None => {} })
            }
            "flatten" => parse_quote!(match #x { Some(#v) => { #(#inner)* } None => {} }),
            "filter" => {
                let b = inline_closure(&args[0], vec![parse_quote!((&#v))])?;
                parse_quote!(let #v = #x; if #b { #(#inner)* })
            }
            "cloned" | "copied" => parse_quote!(let #v = (*#x).clone(); #(#inner)*),
            _ => return None,
        })
    }
    fn iter_loop(&mut self, root: &Expr, body: &mut dyn FnMut(&mut Self, Expr, &syn::Ident) -> Option<Vec<Stmt>>) -> Option<(Vec<Stmt>, Stmt)> {
        let src = self.root_iter(root);
        if let Expr::Range(r) = strip_paren(&src) {
            let i = self.fresh("i");
            let go = self.fresh("go");
            let (a, b) = (r.start.clone()?, r.end.clone()?);
            let hi = self.fresh("hi");
            let st = body(self, parse_quote!(#i), &go)?;
            let inc = r.limits.to_token_stream().to_string() == "..=";
            if inc {
                return None;
            }
            let pre: Vec<Stmt> = parse_quote!(let mut #go = true; let mut #i = #a; let #hi = #b;);
            let nx = self.fresh("nx");
            let _ = nx;
            let stm: Stmt = parse_quote!(while #go && #i < #hi { __vrange!(#i, #hi, #a); #(#st)* #i = #i + 1; });
            return Some((pre, stm));
        }
        let it = self.fresh("it");
        let x = self.fresh("x");
        let go = self.fresh("go");
        let st = body(self, parse_quote!(#x), &go)?;
        let seq = self.fresh("seq");
        let pre: Vec<Stmt> = parse_quote!(
            let mut #it = crate::prelude::SeqSource::seq_iter(#src);
            __vghost!(#seq, #it);
            let mut #go = true;
        );
        let stm: Stmt = parse_quote!(
            while #go {
                __viter!(#it, #seq, #go);
                match #it.next() {
                    None => { #go = false; }
                    Some(#x) => { #(#st)* }
                }
            }
        );
        Some((pre, stm))
    }
    fn chain(&mut self, root: Expr, ads: Vec<(String, Vec<Expr>)>, sink: &str, args: &[Expr], ty: Option<syn::Type>) -> Option<Expr> {
        let acc = self.fresh("acc");
        let n_ads = ads.len();
        let _ = n_ads;
        let (init, stm): (Vec<Stmt>, (Vec<Stmt>, Stmt)) = match sink {
            "collect" => {
                self.n_coll += 1;
                let a2 = acc.clone();
                let l = self.iter_loop(&root, &mut |s, x, _| {
                    let a = a2.clone();
                    s.adapt(x, &ads, &mut |_, v| parse_quote!(#a.push(#v);))
                })?;
                match (ty, self.acc_types.get(&self.n_coll)) {
                    (Some(t), _) => (parse_quote!(let mut #acc: #t = Vec::new();), l),
                    (None, Some(t)) => {
                        let t: syn::Type = syn::parse_str(t).ok()?;
                        (parse_quote!(let mut #acc: #t = Vec::new();), l)
                    }
                    _ => (parse_quote!(let mut #acc = Vec::new();), l),
                }
            }
            "sum" => {
                let a2 = acc.clone();
                let l = self.iter_loop(&root, &mut |s, x, _| {
                    let a = a2.clone();
                    s.adapt(x, &ads, &mut |_, v| parse_quote!(#a = #a + #v;))
                })?;
                (parse_quote!(let mut #acc = 0;), l)
            }
            "count" => {
                let a2 = acc.clone();
                let l = self.iter_loop(&root, &mut |s, x, _| {
                    let a = a2.clone();
                    s.adapt(x, &ads, &mut |_, _| parse_quote!(#a = #a + 1;))
                })?;
                (parse_quote!(let mut #acc: usize = 0;), l)
            }
            "all" | "any" => {
                // `any(c)` is read as `!all(!c)`
                let a2 = acc.clone();
                let all = sink == "all";
                let l = self.iter_loop(&root, &mut |s, x, go| {
                    let a = a2.clone();
                    let go = go.clone();
                    let c = args[0].clone();
                    s.adapt(x, &ads, &mut |_, v| {
                        let b = inline_closure(&c, vec![v]).unwrap_or(parse_quote!(__unsupported()));
                        if all {
                            parse_quote!(if !(#b) { #a = false; #go = false; })
                        } else {
                            parse_quote!(if #b { #a = false; #go = false; })
                        }
                    })
                })?;
                let (pre, stm) = l;
                let v: Expr = if all { parse_quote!(#acc) } else { parse_quote!((!#acc)) };
                return Some(parse_quote!({ #(#pre)* let mut #acc = true; __vacc!(#acc); #stm #v }));
            }
            "position" => {
                let idx = self.fresh("idx");
                let (a2, i2) = (acc.clone(), idx.clone());
                let c = args[0].clone();
                let l = self.iter_loop(&root, &mut |s, x, go| {
                    let (a, i, go, c) = (a2.clone(), i2.clone(), go.clone(), c.clone());
                    s.adapt(x, &ads, &mut |_, v| {
                        let b = inline_closure(&c, vec![v]).unwrap_or(parse_quote!(__unsupported()));
                        parse_quote!(if #b { #a = Some(#i); #go = false; } else { #i = #i + 1; })
                    })
                })?;
                (parse_quote!(let mut #acc: Option<usize> = None; let mut #idx: usize = 0;), l)
            }
            "for_each" => {
                let l = self.iter_loop(&root, &mut |s, x, _| {
                    let c = args[0].clone();
                    s.adapt(x, &ads, &mut |_, v| {
                        let b = inline_closure(&c, vec![v]).unwrap_or(parse_quote!(__unsupported()));
                        parse_quote!(#b;)
                    })
                })?;
                let (pre, stm) = l;
                return Some(parse_quote!({ #(#pre)* #stm }));
            }
            _ => return None,
        };
        let (pre, stm) = stm;
        Some(parse_quote!({ #(#pre)* #(#init)* __vacc!(#acc); #stm #acc }))
    }
    fn method(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &*m.receiver;
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        // T9 iterator chains
        if ITER_SINKS.contains(&n.as_str()) {
            if let Some((root, ads)) = iter_chain(r) {
                let ty = m.turbofish.as_ref().and_then(|t| match t.args.first() {
                    Some(syn::GenericArgument::Type(t)) if !has_infer(t) => Some(t.clone()),
                    _ => None,
                });
                return self.chain(root, ads, &n, &args, ty);
            }
        }
        if iter_chain(&Expr::MethodCall(m.clone())).is_some() {
            return None;
        }
        // T5 hash table
        match (n.as_str(), args.len()) {
            ("find", 2) | ("find_entry", 2) => {
                let h = &args[0];
                let res = self.fresh("res");
                let root: Expr = parse_quote!(#r.iter_hash(#h));
                let c = args[1].clone();
                let is_entry = n == "find_entry";
                let r2 = res.clone();
                let (pre, stm) = self.iter_loop(&root, &mut |_, x, go| {
                    let b = inline_closure(&c, vec![x.clone()])?;
                    Some(if is_entry {
                        parse_quote!(if #b { #r2 = Some(*#x); #go = false; })
                    } else {
                        parse_quote!(if #b { #r2 = Some(#x); #go = false; })
                    })
                })?;
                let it = pre.iter().find_map(|s| match s {
                    Stmt::Local(l) => match &l.pat {
                        Pat::Ident(i) => Some(i.ident.clone()),
                        _ => None,
                    },
                    _ => None,
                })?;
                return Some(if is_entry {
                    parse_quote!({ #(#pre)* let mut #res = crate::prelude::no_elem(&#it); __vacc!(#res); #stm #r.found_entry(#res) })
                } else {
                    parse_quote!({ #(#pre)* let mut #res = crate::prelude::no_item(&#it); __vacc!(#res); #stm #res })
                });
            }
            ("insert_unique", 3) => {
                let (h, v) = (&args[0], &args[1]);
                let (b, k) = (self.fresh("b"), self.fresh("h"));
                let body = inline_closure(&args[2], vec![parse_quote!(#b)])?;
                return Some(parse_quote!({
                    match #r.some_element() { Some(#b) => { let #k = #body; #r.check_rehash(#b, #k); } None => {} }
                    #r.insert_hashed(#h, #v)
                }));
            }
            ("reserve", 2) => {
                let a = &args[0];
                let (b, k) = (self.fresh("b"), self.fresh("h"));
                let body = inline_closure(&args[1], vec![parse_quote!(#b)])?;
                return Some(parse_quote!({
                    match #r.some_element() { Some(#b) => { let #k = #body; #r.check_rehash(#b, #k); } None => {} }
                    #r.reserve_room(#a)
                }));
            }
            _ => {}
        }
        if n == "into_boxed_slice" && args.is_empty() {
            return Some(r.clone());
        }
        // T6 `Option<&T>::cloned`
        if n == "cloned" && args.is_empty() {
            let v = self.fresh("o");
            return Some(parse_quote!((match #r { Some(#v) => Some(#v.clone()), None => None })));
        }
        if n == "copied" && args.is_empty() {
            let v = self.fresh("o");
            return Some(parse_quote!((match #r { Some(#v) => Some(*#v), None => None })));
        }
        if n == "unwrap_unchecked" && args.is_empty() {
            return Some(parse_quote!(#r.unwrap()));
        }
        // T6 Option/Result combinators taking a closure literal
        let v = self.fresh("o");
        let lit = |i: usize| {
            args.get(i).map_or(false, |a| {
                closure_parts(a).is_some()
                    || matches!(strip_paren(a), Expr::Path(p) if p.path.segments.last().unwrap().ident.to_string().starts_with(char::is_uppercase))
            })
        };
        match (n.as_str(), args.len()) {
            ("map", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Some(#v) => Some(#b), None => None })))
            }
            ("and_then", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Some(#v) => #b, None => None })))
            }
            ("is_some_and", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Some(#v) => #b, None => false })))
            }
            ("is_none_or", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Some(#v) => #b, None => true })))
            }
            ("map_or", 2) if lit(1) => {
                let b = inline_closure(&args[1], vec![parse_quote!(#v)])?;
                let d = &args[0];
                Some(parse_quote!((match #r { Some(#v) => #b, None => #d })))
            }
            ("unwrap_or_else", 1) if closure_parts(&args[0]).map_or(false, |c| c.0.is_empty()) => {
                let b = inline_closure(&args[0], vec![])?;
                Some(parse_quote!((match #r { Some(#v) => #v, None => #b })))
            }
            ("unwrap_or_else", 1) if closure_parts(&args[0]).map_or(false, |c| c.0.len() == 1) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Ok(#v) => #v, Err(#v) => #b })))
            }
            ("map_or_else", 2) if lit(1) && closure_parts(&args[0]).map_or(false, |c| c.0.is_empty()) => {
                let d = inline_closure(&args[0], vec![])?;
                let b = inline_closure(&args[1], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Some(#v) => #b, None => #d })))
            }
            ("map_or_else", 2) if lit(1) && closure_parts(&args[0]).map_or(false, |c| c.0.len() == 1) => {
                let d = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                let b = inline_closure(&args[1], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Ok(#v) => #b, Err(#v) => #d })))
            }
            ("or_else", 1) if closure_parts(&args[0]).map_or(false, |c| c.0.is_empty()) => {
                let b = inline_closure(&args[0], vec![])?;
                Some(parse_quote!((match #r { Some(#v) => Some(#v), None => #b })))
            }
            ("or_else", 1) if closure_parts(&args[0]).map_or(false, |c| c.0.len() == 1) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#v) => #b })))
            }
            ("ok_or_else", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![])?;
                Some(parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#b) })))
            }
            ("is_ok_and", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Ok(#v) => #b, Err(_) => false })))
            }
            ("is_err_and", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Err(#v) => #b, Ok(_) => false })))
            }
            ("filter", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!((&#v))])?;
                Some(parse_quote!((match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })))
            }
            ("then", 1) if closure_parts(&args[0]).map_or(false, |c| c.0.is_empty()) => {
                let b = inline_closure(&args[0], vec![])?;
                Some(parse_quote!((if #r { Some(#b) } else { None })))
            }
            ("then_some", 1) => {
                let (c, d) = (self.fresh("c"), &args[0]);
                Some(parse_quote!({ let #c = #r; let #v = #d; if #c { Some(#v) } else { None } }))
            }
            ("get_or_insert_with", 1) => {
                let b = inline_closure(&args[0], vec![])?;
                Some(parse_quote!({ if #r.is_none() { let #v = #b; (#r).fill(#v); } (#r).filled() }))
            }
            ("map_err", 1) if lit(0) => {
                let b = inline_closure(&args[0], vec![parse_quote!(#v)])?;
                Some(parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#v) => Err(#b) })))
            }
            _ => None,
        }
    }
}
fn mentions_f64(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_cast(&mut self, c: &'a syn::ExprCast) {
            if c.ty.to_token_stream().to_string() == "f64" {
                self.0 = true;
            }
            syn::visit::visit_expr_cast(self, c);
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
fn is_boolish(e: &Expr, bools: &[String]) -> bool {
    match strip_paren(e) {
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && is_boolish(&u.expr, bools),
        Expr::Match(m) => m.arms.iter().all(|a| matches!(strip_paren(&a.body), Expr::Lit(l) if matches!(l.lit, syn::Lit::Bool(_)))),
        Expr::Binary(b) => matches!(
            b.op,
            syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Gt(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_)
        ),
        Expr::Path(p) => p.path.get_ident().map_or(false, |i| bools.contains(&i.to_string())),
        _ => false,
    }
}
impl VisitMut for Exprs<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // T3 destructuring assignment, T7 raw pointers
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Expr(Expr::Assign(a), semi) if matches!(&*a.left, Expr::Tuple(_)) => {
                    let Expr::Tuple(l) = &*a.left else { unreachable!() };
                    let tmp: Vec<syn::Ident> = l.elems.iter().map(|_| self.fresh("d")).collect();
                    let r = &a.right;
                    // the tuple on the right is split syntactically when possible (no tuple of places needed)
                    match &**r {
                        Expr::Tuple(rt) if rt.elems.len() == tmp.len() => {
                            for (t, e) in tmp.iter().zip(rt.elems.iter()) {
                                out.push(parse_quote!(let #t = #e;));
                            }
                        }
                        _ => out.push(parse_quote!(let (#(#tmp),*) = #r;)),
                    }
                    for (t, p) in tmp.iter().zip(l.elems.iter()) {
                        if !matches!(p, Expr::Infer(_)) {
                            out.push(parse_quote!(#p = #t;));
                        }
                    }
                    let _ = semi;
                }
                Stmt::Local(mut l) => {
                    if let Pat::Type(t) = &l.pat {
                        if let syn::Type::Ptr(_) = &*t.ty {
                            if let (Pat::Ident(i), Some(init)) = (&*t.pat, &l.init) {
                                self.raw.push(i.ident.to_string());
                                let (i, e) = (i.clone(), init.expr.clone());
                                out.push(parse_quote!(let #i = crate::shardprel::launder(#e);));
                                continue;
                            }
                        }
                    }
                    // bool locals (for `as u16`)
                    if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        if is_boolish(&init.expr, &self.bools) {
                            self.bools.push(i.ident.to_string());
                        }
                    }
                    l.attrs.clear();
                    out.push(Stmt::Local(l));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // T9 `for` loops become `while` over a SeqIter
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Expr(Expr::ForLoop(f), semi) => {
                    let (root, ads) = iter_chain(&f.expr).unwrap_or(((*f.expr).clone(), vec![]));
                    let body = f.body.stmts.clone();
                    let pat = (*f.pat).clone();
                    let r = self.iter_loop(&root, &mut |s, x, _| {
                        s.adapt(x, &ads, &mut |_, v| {
                            let mut st = bind(&pat, v);
                            st.extend(body.clone());
                            st
                        })
                    });
                    match r {
                        Some((pre, stm)) => {
                            out.extend(pre);
                            out.push(stm);
                        }
                        None => out.push(Stmt::Expr(Expr::ForLoop(f), semi)),
                    }
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // T12 `a | b if g => x` becomes two arms
        if let Expr::Match(m) = e {
            m.arms = m
                .arms
                .iter()
                .flat_map(|a| match (&a.pat, &a.guard) {
                    (Pat::Or(o), Some(_)) => o.cases.iter().map(|p| syn::Arm { pat: p.clone(), comma: Some(Default::default()), ..a.clone() }).collect(),
                    _ => vec![a.clone()],
                })
                .collect();
            // T14 `match e { p if g => x, _ => y }` becomes `match e { p => if g { x } else { y }, _ => y }`
            if m.arms.len() == 2 && m.arms[1].guard.is_none() && matches!(m.arms[1].pat, Pat::Wild(_)) {
                if let Some((_, g)) = m.arms[0].guard.take() {
                    let (x, y) = (m.arms[0].body.clone(), m.arms[1].body.clone());
                    m.arms[0].body = parse_quote!({ if #g { #x } else { #y } });
                }
            }
        }
        // T8 float arithmetic cast to an integer
        if let Expr::Cast(c) = e {
            let ty = c.ty.to_token_stream().to_string();
            if (ty == "u64" || ty == "usize") && mentions_f64(&c.expr) {
                if let Expr::Binary(b) = strip_paren(&c.expr) {
                    if matches!(b.op, syn::BinOp::Mul(_)) {
                        let side = |x: &Expr| match strip_paren(x) {
                            Expr::Cast(c) if c.ty.to_token_stream().to_string() == "f64" => Some((*c.expr).clone()),
                            _ => None,
                        };
                        let (i, f) = match (side(&b.left), side(&b.right)) {
                            (Some(i), None) => (i, (*b.right).clone()),
                            (None, Some(i)) => (i, (*b.left).clone()),
                            _ => return,
                        };
                        let ty = &c.ty;
                        *e = parse_quote!((crate::shardprel::float_scale((#i) as u64, #f) as #ty));
                        return;
                    }
                }
            }
            if is_boolish(&c.expr, &self.bools) {
                let (x, ty) = (&c.expr, &c.ty);
                *e = parse_quote!((if #x { 1 as #ty } else { 0 as #ty }));
            }
        }
        // method rules are applied outside-in, so that whole chains are seen
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.method(&m.clone()) {
                *e = x;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        match e {
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = if b.stmts.len() == 1 && matches!(b.stmts[0], Stmt::Expr(_, None)) {
                    let Stmt::Expr(x, None) = &b.stmts[0] else { unreachable!() };
                    parse_quote!((#x))
                } else {
                    Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b })
                };
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f.ends_with("hint::unreachable_unchecked") {
                    *e = parse_quote!(crate::prelude::check_unreachable());
                } else if c.args.len() == 1 && (f == "drop" || f.ends_with("mem::drop")) {
                    c.func = Box::new(parse_quote!(crate::prelude::let_go));
                } else if c.args.len() == 1 && f.ends_with("mem::take") {
                    c.func = Box::new(parse_quote!(crate::shardprel::take_out));
                } else if c.args.len() == 2 && (f.ends_with("cmp::min") || f.ends_with("cmp::max")) {
                    // (equal for the integers this is used with; a literal cannot be the receiver)
                    let (mut x, mut y) = (c.args[0].clone(), c.args[1].clone());
                    if matches!(strip_paren(&x), Expr::Lit(_)) {
                        std::mem::swap(&mut x, &mut y);
                    }
                    let m = format_ident!("{}", &f[f.len() - 3..]);
                    *e = parse_quote!((#x).#m(#y));
                } else if f.ends_with("hint::assert_unchecked") {
                    c.func = Box::new(parse_quote!(crate::prelude::check_assert));
                }
            }
            Expr::Reference(r) => {
                if let Expr::Unary(u) = strip_paren(&r.expr) {
                    if let (syn::UnOp::Deref(_), Expr::Path(p)) = (&u.op, strip_paren(&u.expr)) {
                        if p.path.get_ident().map_or(false, |i| self.raw.contains(&i.to_string())) {
                            *e = (*u.expr).clone();
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// A tail expression that is a lazy iterator chain becomes an eager Vec (function return type
/// `impl Iterator<Item = T>` becomes `Vec<T>`).
fn eager_tail(b: &mut Block, ty: &syn::Type) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        if iter_chain(e).map_or(false, |(_, ads)| !ads.is_empty()) {
            let x = e.clone();
            *e = parse_quote!(#x.collect::<#ty>());
        }
    }
}
pub fn rewrite_return_type(sig: &mut syn::Signature) -> bool {
    if let syn::ReturnType::Type(_, t) = &mut sig.output {
        if let syn::Type::ImplTrait(it) = &**t {
            for b in &it.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let s = tb.path.segments.last().unwrap();
                    if s.ident == "Iterator" {
                        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                            for x in &a.args {
                                if let syn::GenericArgument::AssocType(at) = x {
                                    let ty = &at.ty;
                                    **t = parse_quote!(Vec<#ty>);
                                    return true;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    false
}

pub struct SigTypes;
impl VisitMut for SigTypes {
    // a boxed slice is a vector
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Box" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(syn::GenericArgument::Type(syn::Type::Slice(x))) = a.args.first() {
                        let e = &x.elem;
                        *t = parse_quote!(Vec<#e>);
                    }
                }
            }
        }
    }
    fn visit_lifetime_mut(&mut self, _: &mut syn::Lifetime) {}
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        // `atomic::Ordering::X` -> `Ordering::X`
        if segs.len() == 3 && segs[0] == "atomic" && segs[1] == "Ordering" {
            let x = &p.segments[2].ident;
            *p = parse_quote!(crate::shardprel::Ordering::#x);
        }
        // futures
        if segs.len() >= 3 && (segs[0] == "std" || segs[0] == "core") && segs[1] == "task" {
            let last = p.segments.last().unwrap().clone();
            *p = parse_quote!(crate::syncprel::#last);
            return;
        }
        // identity of shared objects
        if segs.len() >= 2 && segs[segs.len() - 2] == "Arc" && segs[segs.len() - 1] == "new" {
            *p = parse_quote!(crate::syncprel::new_arc);
            return;
        }
        if segs.len() >= 2 && segs[segs.len() - 2] == "Arc" && segs[segs.len() - 1] == "ptr_eq" {
            *p = parse_quote!(crate::syncprel::same_arc);
            return;
        }
        if segs.len() >= 2 && segs[0] == "mem" {
            let last = p.segments.last().unwrap().clone();
            *p = parse_quote!(std::mem::#last);
        }
    }
}

// ---------------------------------------------------------------- hooks

struct WrapReturns;
impl VisitMut for WrapReturns {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            *e = match &r.expr {
                Some(x) => parse_quote!({ let __ret = #x; __vproof!(at_exit); __vproof!(exit); return __ret; }),
                None => parse_quote!({ __vproof!(at_exit); __vproof!(exit); return; }),
            };
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        self.0.push(m.method.to_string());
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(p.path.segments.last().unwrap().ident.to_string());
        }
        syn::visit::visit_expr_call(self, c);
    }
    // only the statement's own straight-line part: nested blocks get their own hooks
    fn visit_block(&mut self, _: &'a Block) {}
}
struct AfterHooks<'a> {
    names: Vec<&'a String>,
}
impl VisitMut for AfterHooks<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        for s in b.stmts.drain(..) {
            let mut c = Calls(vec![]);
            c.visit_stmt(&s);
            let is_tail = matches!(s, Stmt::Expr(_, None));
            let hooks: Vec<&String> = self.names.iter().filter(|n| c.0.contains(n)).copied().collect();
            out.push(s);
            if !is_tail {
                for h in hooks {
                    let id = format_ident!("after_{}", h);
                    out.push(parse_quote!(__vproof!(#id);));
                }
            }
        }
        b.stmts = out;
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------------------------------------------------------------- loops

struct Loops {
    acc: Option<String>,
    infos: Vec<LoopInfo>,
    scope: Vec<String>,
}
struct Assigned(Vec<String>);
impl<'a> Visit<'a> for Assigned {
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        if let Expr::Path(p) = strip_paren(&a.left) {
            if let Some(i) = p.path.get_ident() {
                self.0.push(i.to_string());
            }
        }
        syn::visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        let op = b.op.to_token_stream().to_string();
        if op.len() >= 2 && op.ends_with('=') && !["==", "!=", "<=", ">="].contains(&op.as_str()) {
            if let Expr::Path(p) = strip_paren(&b.left) {
                if let Some(i) = p.path.get_ident() {
                    self.0.push(i.to_string());
                }
            }
        }
        syn::visit::visit_expr_binary(self, b);
    }
}
struct PatNames(Vec<String>);
impl<'a> Visit<'a> for PatNames {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
fn macro_args(s: &Stmt, name: &str) -> Option<Vec<String>> {
    if let Stmt::Macro(m) = s {
        if m.mac.path.is_ident(name) {
            return Some(split_commas(m.mac.tokens.clone()).into_iter().map(|t| t.to_string()).collect());
        }
    }
    None
}
impl Loops {
    fn make(&mut self, kind: &str, body: &mut Block) {
        let mut asg = Assigned(vec![]);
        asg.visit_block(body);
        let mut carried = vec![];
        for s in &self.scope {
            if asg.0.contains(s) && !carried.contains(s) && !s.starts_with("__go") {
                carried.push(s.clone());
            }
        }
        let mut info = LoopInfo { ord: self.infos.len(), kind: kind.into(), carried, declared: self.scope.clone(), ..Default::default() };
        if let Some(s) = body.stmts.first() {
            if let Some(a) = macro_args(s, "__viter") {
                let (it, seq, go) = (&a[0], &a[1], &a[2]);
                info.auto_inv.push(format!("{it}.seq() == {seq}"));
                info.auto_inv.push(format!("0 <= {it}.pos() <= {seq}.len()"));
                let txt = body.to_token_stream().to_string();
                if txt.matches(&format!("{go} = false")).count() == 1 && !txt.contains("break") {
                    info.auto_inv.push(format!("!{go} ==> {it}.pos() == {seq}.len()"));
                }
                info.auto_dec = Some(format!("{seq}.len() - {it}.pos() + if {go} {{ 1int }} else {{ 0int }}"));
                info.fixed.insert("it".into(), it.clone());
                info.fixed.insert("go".into(), go.clone());
                info.carried.retain(|c| !c.starts_with("__") || c.starts_with("__acc") || c.starts_with("__res"));
                body.stmts.remove(0);
            } else if let Some(a) = macro_args(s, "__vrange") {
                info.auto_inv.push(format!("{} <= {} <= {}", a[2], a[0], a[1]));
                info.auto_dec = Some(format!("{} - {}", a[1], a[0]));
                info.fixed.insert("i".into(), a[0].clone());
                info.fixed.insert("hi".into(), a[1].clone());
                info.carried.retain(|c| !c.starts_with("__") || c.starts_with("__acc") || c.starts_with("__res"));
                body.stmts.remove(0);
            }
        }
        if let Some(a) = self.acc.take() {
            info.fixed.insert("acc".into(), a);
        }
        if let Some(i) = info.declared.iter().rev().find(|s| s.starts_with("__idx")) {
            info.fixed.insert("idx".into(), i.clone());
        }
        let n = info.ord;
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        self.infos.push(info);
        body.stmts.insert(0, parse_quote!(__vloop!(#lit);));
        let depth = self.scope.len();
        self.visit_block_mut(body);
        self.scope.truncate(depth);
    }
}
impl VisitMut for Loops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let depth = self.scope.len();
        for s in b.stmts.iter_mut() {
            if let Some(a) = macro_args(s, "__vacc") {
                // remembered as the accumulator of the next loop
                self.scope.push(a[0].clone());
                self.acc = Some(a[0].clone());
                continue;
            }
            let names = match s {
                Stmt::Local(l) => {
                    let mut p = PatNames(vec![]);
                    p.visit_pat(&l.pat);
                    p.0
                }
                _ => vec![],
            };
            self.visit_stmt_mut(s);
            self.scope.extend(names);
        }
        b.stmts.retain(|s| macro_args(s, "__vacc").is_none());
        self.scope.truncate(depth);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                self.visit_expr_mut(&mut w.cond);
                w.label = None;
                self.make("while", &mut w.body)
            }
            Expr::Loop(l) => {
                l.label = None;
                self.make("loop", &mut l.body)
            }
            Expr::ForLoop(f) => {
                self.visit_expr_mut(&mut f.expr);
                self.make("for", &mut f.body)
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// T19: a value made by one of the named functions that is dropped on the spot runs its `drop`
struct Dropped<'a> {
    names: &'a [String],
    n: usize,
}
impl Dropped<'_> {
    fn makes(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| self.names.contains(&s.ident.to_string()))),
            Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, None)) if self.makes(e)),
            _ => false,
        }
    }
}
impl VisitMut for Dropped<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out: Vec<Stmt> = vec![];
        let mut late: Vec<syn::Ident> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let len = stmts.len();
        for (i, s) in stmts.iter().enumerate() {
            let v = format_ident!("__d{}", self.n);
            match s {
                Stmt::Local(l) if l.init.as_ref().map_or(false, |x| x.diverge.is_none() && self.makes(&x.expr)) => {
                    let e = &l.init.as_ref().unwrap().expr;
                    match &l.pat {
                        Pat::Wild(_) => {
                            self.n += 1;
                            out.push(parse_quote!(let mut #v = #e;));
                            out.push(parse_quote!(#v.drop();));
                        }
                        Pat::Ident(p) => {
                            let id = p.ident.clone();
                            let uses = |t: &Stmt| mentions(t.to_token_stream(), &id.to_string()) > 0;
                            let rest = &stmts[i + 1..];
                            out.push(parse_quote!(let mut #id = #e;));
                            if !rest.iter().any(uses) {
                                late.push(id);
                            }
                        }
                        _ => out.push(s.clone()),
                    }
                }
                Stmt::Expr(e, semi) if (semi.is_some() || i + 1 == len) && self.makes(e) && semi.is_some() => {
                    self.n += 1;
                    out.push(parse_quote!(let mut #v = #e;));
                    out.push(parse_quote!(#v.drop();));
                }
                Stmt::Expr(Expr::Call(c), _) if c.args.len() == 1 && c.func.to_token_stream().to_string().ends_with("let_go") => {
                    let a = &c.args[0];
                    if self.makes(a) {
                        self.n += 1;
                        out.push(parse_quote!(let mut #v = #a;));
                        out.push(parse_quote!(#v.drop();));
                    } else {
                        // a local made by one of the functions
                        let made = match strip_paren(a) {
                            Expr::Path(p) => stmts[..i].iter().any(|t| matches!(t, Stmt::Local(l) if l.init.as_ref().map_or(false, |x| self.makes(&x.expr)) && matches!(&l.pat, Pat::Ident(q) if p.path.is_ident(&q.ident)))),
                            _ => false,
                        };
                        if made {
                            out.push(parse_quote!(#a.drop();));
                        } else {
                            out.push(s.clone());
                        }
                    }
                }
                _ => out.push(s.clone()),
            }
        }
        for id in late.into_iter().rev() {
            out.push(parse_quote!(#id.drop();));
        }
        b.stmts = out;
    }
}
/// T20: assigning to `*self` drops what was there
struct AssignDrops;
impl VisitMut for AssignDrops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Assign(a) = e {
            if a.left.to_token_stream().to_string().replace(' ', "") == "*self" {
                let r = &a.right;
                *e = parse_quote!({ let __new = #r; self.drop(); *self = __new; });
            }
        }
    }
}
/// a local that is dropped is not used again, which is all the verifier needs to know
struct DropNoop;
impl VisitMut for DropNoop {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if c.args.len() == 1 && c.func.to_token_stream().to_string().ends_with("let_go") && matches!(strip_paren(&c.args[0]), Expr::Path(p) if p.path.get_ident().is_some()) {
                *e = parse_quote!(());
            }
        }
    }
}
struct Clocked;
impl VisitMut for Clocked {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        match (m.method.to_string().as_str(), m.args.len()) {
            ("write", 0) => m.method = format_ident!("write_at"),
            ("read", 0) => m.method = format_ident!("read_at"),
            ("load", 1) => m.method = format_ident!("load_at"),
            ("elapsed", 0) => m.method = format_ident!("elapsed_at"),
            _ => return,
        }
        m.args.push(parse_quote!(&mut __clk));
    }
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        let Expr::Path(p) = &mut *c.func else { return };
        let name = p.path.to_token_stream().to_string().replace(' ', "");
        if ["Instant::now", "thread::park", "thread::park_timeout"].iter().any(|n| name == *n || name.ends_with(&format!("::{n}"))) {
            let last = p.path.segments.last_mut().unwrap();
            last.ident = format_ident!("{}_at", last.ident);
            c.args.push(parse_quote!(&mut __clk));
        }
    }
}

pub fn own_self(sig: &syn::Signature, sp: &FnSpec) -> bool {
    sig.receiver().map_or(false, |r| r.reference.is_none() && r.colon_token.is_none() && (r.mutability.is_some() || !sp.at_exit.trim().is_empty()))
}

pub fn rewrite_body(
    block: &mut Block,
    sig: &syn::Signature,
    f: &FnSrc,
    env: &Env,
    lazy_iter: bool,
    sp: &FnSpec,
    notes: &mut Vec<String>,
    inlined: &mut Vec<String>,
) -> Vec<LoopInfo> {
    Cfg { features: &env.features }.visit_block_mut(block);
    block.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Fn(_))));
    Macros { env, notes }.visit_block_mut(block);
    Awaits { names: &env.async_names, futures: futures(sig) }.visit_block_mut(block);
    LocalClosures.visit_block_mut(block);
    Inline { env, cur: f, depth: 5, n: 0, inlined, notes }.visit_block_mut(block);
    // T16 `mut self` becomes a local
    if own_self(sig, sp) {
        Rename { from: "self".into(), to: format_ident!("this") }.visit_block_mut(block);
        block.stmts.insert(0, parse_quote!(let mut this = self;));
    }
    let mut bools = vec![];
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            if t.ty.to_token_stream().to_string() == "bool" {
                bools.push(t.pat.to_token_stream().to_string().trim_start_matches("mut ").to_string());
            }
        }
    }
    if lazy_iter {
        let mut s2 = sig.clone();
        rewrite_return_type(&mut s2);
        if let syn::ReturnType::Type(_, t) = &s2.output {
            eager_tail(block, t);
        }
    }
    let wants_exit = !sp.exit.trim().is_empty() || !sp.at_exit.trim().is_empty();
    if wants_exit || sp.desugar_try {
        Try { ret: &sig.output, n: 0 }.visit_block_mut(block);
    }
    Exprs { n_coll: 0, acc_types: &sp.acc_types, n: 0, raw: vec![], bools, notes }.visit_block_mut(block);
    if !sp.dropped.is_empty() {
        Dropped { names: &sp.dropped, n: 0 }.visit_block_mut(block);
    }
    DropNoop.visit_block_mut(block);
    if sp.assign_drops {
        AssignDrops.visit_block_mut(block);
    }
    // T18 lock requests and flag reads are told in which order they happen
    if sp.clock {
        Clocked.visit_block_mut(block);
        block.stmts.insert(0, parse_quote!(let mut __clk = Clock::new();));
    }
    // parameters are in scope
    let mut pn = PatNames(vec![]);
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            pn.visit_pat(&t.pat);
        }
    }
    let mut lo = Loops { acc: None, infos: vec![], scope: pn.0 };
    lo.visit_block_mut(block);
    let names: Vec<&String> = sp.after.keys().collect();
    if !names.is_empty() {
        AfterHooks { names }.visit_block_mut(block);
    }
    if wants_exit {
        WrapReturns.visit_block_mut(block);
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(e, None)) => {
                let diverges = matches!(e, Expr::Return(_))
                    || matches!(&e, Expr::Loop(_))
                    || e.to_token_stream().to_string().contains("check_unreachable");
                let is_unit = matches!(sig.output, syn::ReturnType::Default);
                if matches!(e, Expr::Loop(_)) || (matches!(e, Expr::While(_))) {
                    if matches!(e, Expr::While(_)) {
                        block.stmts.push(parse_quote!(__vproof!(at_exit);));
 block.stmts.push(parse_quote!(__vproof!(exit);));
                    }
                } else if !diverges && !is_unit {
                    block.stmts.pop();
                    block.stmts.push(parse_quote!(let __ret = #e;));
                    block.stmts.push(parse_quote!(__vproof!(at_exit);));
 block.stmts.push(parse_quote!(__vproof!(exit);));
                    block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
                } else if is_unit {
                    block.stmts.pop();
                    block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                    block.stmts.push(parse_quote!(__vproof!(at_exit);));
 block.stmts.push(parse_quote!(__vproof!(exit);));
                }
            }
            Some(Stmt::Expr(Expr::Return(_), _)) => {}
            Some(_) | None => {
                if matches!(sig.output, syn::ReturnType::Default) {
                    block.stmts.push(parse_quote!(__vproof!(at_exit);));
 block.stmts.push(parse_quote!(__vproof!(exit);));
                }
            }
        }
    }
    if !sp.entry.trim().is_empty() {
        let at = own_self(sig, sp) as usize;
        block.stmts.insert(at, parse_quote!(__vproof!(entry);));
    }
    lo.infos
}
