//! Mechanical extraction of functions of /repo into a Verus crate.
//!
//! usage: extract <repo/src> <specdir> <out.rs> <report.json> [feature...]
//!
//! Every function body in the output comes from the source tree given on the command line, passed
//! through the rewriting rules in `rules.rs` (each rule is numbered and listed in DESIGN.md).  Contracts,
//! loop invariants, entry/exit proof hooks and ghost items come from the spec files.
mod rules;
mod spec;

use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use syn::visit_mut::VisitMut;

use rules::*;
use spec::*;

pub struct Source {
    pub file: String,
    pub items: Vec<syn::Item>,
}

fn parse_source(path: &str, features: &[String]) -> Result<Source, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let file = syn::parse_file(&text).map_err(|e| format!("{path}: {e}"))?;
    let items = file
        .items
        .into_iter()
        .filter(|i| cfg_ok(item_attrs(i), features))
        .collect();
    Ok(Source { file: path.into(), items })
}

/// Formats a Rust fragment (a block) with rustfmt; falls back to the token text.
fn rustfmt(src: &str) -> String {
    let child = Command::new("rustfmt")
        .args(["--edition", "2021", "--emit", "stdout", "--config", "max_width=120"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let Ok(mut child) = child else {
        return src.to_string();
    };
    let _ = child.stdin.take().unwrap().write_all(src.as_bytes());
    match child.wait_with_output() {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
        _ => src.to_string(),
    }
}

fn fn_key(self_ty: &str, tr: Option<&str>, name: &str) -> String {
    match (self_ty, tr) {
        ("", _) => name.to_string(),
        (t, None) => format!("{t}::{name}"),
        (t, Some(tr)) => format!("<{tr} for {t}>::{name}"),
    }
}

pub fn type_last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_last_ident(&r.elem),
        _ => String::new(),
    }
}

#[derive(Clone)]
pub struct FnSrc {
    pub file: String,
    pub key: String,
    pub self_ty: String,
    pub generics: syn::Generics,
    pub self_type: Option<syn::Type>,
    pub trait_: Option<syn::Path>,
    pub sig: syn::Signature,
    pub block: syn::Block,
}

/// functions declared inside a function body
fn nested_fns(b: &syn::Block, file: &str, out: &mut Vec<FnSrc>) {
    for s in &b.stmts {
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            out.push(FnSrc {
                file: file.into(),
                key: f.sig.ident.to_string(),
                self_ty: String::new(),
                generics: Default::default(),
                self_type: None,
                trait_: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
            });
        }
    }
}

fn collect_fns(src: &Source, features: &[String]) -> Vec<FnSrc> {
    let mut out = vec![];
    for it in &src.items {
        match it {
            syn::Item::Fn(f) => {
                nested_fns(&f.block, &src.file, &mut out);
                out.push(FnSrc {
                file: src.file.clone(),
                key: f.sig.ident.to_string(),
                self_ty: String::new(),
                generics: Default::default(),
                self_type: None,
                trait_: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
            })}
            syn::Item::Impl(im) => {
                let ty = type_last_ident(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.clone());
                let trn = tr.as_ref().map(|p| p.segments.last().unwrap().ident.to_string());
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if !cfg_ok(&f.attrs, features) {
                            continue;
                        }
                        nested_fns(&f.block, &src.file, &mut out);
                        out.push(FnSrc {
                            file: src.file.clone(),
                            key: fn_key(&ty, trn.as_deref(), &f.sig.ident.to_string()),
                            self_ty: ty.clone(),
                            generics: im.generics.clone(),
                            self_type: Some((*im.self_ty).clone()),
                            trait_: tr.clone(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                        });
                    }
                }
            }
            _ => {}
        }
    }
    out
}

struct Report {
    lost: Vec<String>,
    notes: Vec<String>,
    fns: Vec<(String, usize, usize)>,
    inlined: Vec<String>,
    uncontracted: Vec<String>,
    assumed: Vec<String>,
    shapes: Vec<(String, String)>,
}

fn strip_attrs_sig(sig: &mut syn::Signature) {
    for i in sig.inputs.iter_mut() {
        match i {
            syn::FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.reference.is_none() {
                    r.mutability = None;
                }
            }
            syn::FnArg::Typed(t) => t.attrs.clear(),
        }
    }
}

fn indent(text: &str, n: usize) -> String {
    let pad = " ".repeat(n);
    text.lines().map(|l| format!("{pad}{}\n", l)).collect()
}

fn clause(name: &str, text: &str) -> String {
    if text.trim().is_empty() {
        String::new()
    } else {
        format!("    {name}\n{}", indent(text.trim_end(), 4))
    }
}

static STUBS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
static PROBE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

fn emit_fn(
    out: &mut String,
    f: &FnSrc,
    sp: &FnSpec,
    env: &Env,
    report: &mut Report,
    module: &str,
) {
    let mut sig = f.sig.clone();
    strip_attrs_sig(&mut sig);
    let mut block = f.block.clone();
    let mut notes = vec![];
    let mut inlined = vec![];
    // rewriting
    let lazy_iter = rewrite_return_type(&mut sig);
    let loops = rewrite_body(&mut block, &f.sig, f, env, lazy_iter, sp, &mut notes, &mut inlined);
    for n in notes {
        report.notes.push(format!("{module}::{}: {n}", f.key));
    }
    for n in inlined {
        report.inlined.push(format!("{module}::{} <- {n}", f.key));
    }
    if let Some(name) = &sp.rename {
        sig.ident = syn::Ident::new(name, sig.ident.span());
    }
    // `mut` on parameters is kept; unsafe fn -> fn (its precondition is the contract)
    sig.unsafety = None;
    sig.asyncness = None;
    SigTypes.visit_signature_mut(&mut sig);
    SigTypes.visit_block_mut(&mut block);

    // ---- print ----
    let start_line = out.lines().count() + 1;
    let stub = sp.assume || STUBS.get().unwrap().contains(&format!("{module}::{}", f.key));
    if sp.assume {
        report.assumed.push(format!("{module}::{}", f.key));
    }
    if stub {
        writeln!(out, "#[verifier::external_body]").unwrap();
    }
    for a in &sp.attrs {
        writeln!(out, "{a}").unwrap();
    }
    if module != "linked_slab" {
        writeln!(out, "#[verifier::spinoff_prover]").unwrap();
    }
    if !loops.is_empty() && !stub && !PROBE.get().unwrap() {
        writeln!(out, "#[verifier::loop_isolation(false)]").unwrap();
    }
    let ret = match &sig.output {
        syn::ReturnType::Default => None,
        syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
    };
    let ret = sp.ret_type.clone().or(ret);
    sig.output = syn::ReturnType::Default;
    let where_clause = sig.generics.where_clause.take();
    let mut head = sig.to_token_stream().to_string();
    for (a, b) in &sp.sig_subst {
        if !head.contains(a.as_str()) {
            report.notes.push(format!("{module}::{}: sig_subst `{a}` did not match", f.key));
        }
        head = head.replace(a.as_str(), b);
    }
    let is_trait_impl = f.trait_.is_some() && sp.as_inherent.is_none();
    let vis = if is_trait_impl { "" } else { "pub " };
    write!(out, "{vis}{head}").unwrap();
    if let Some(r) = ret {
        write!(out, " -> ({}: {})", sp.ret.clone().unwrap_or("__r".into()), r).unwrap();
    }
    writeln!(out).unwrap();
    if let Some(w) = where_clause {
        writeln!(out, "    {}", w.to_token_stream()).unwrap();
    }
    out.push_str(&clause("requires", &sp.requires));
    out.push_str(&clause("ensures", &sp.ensures));
    out.push_str(&clause("decreases", &sp.decreases));
    // body
    let body = format!("fn __f() {}", block.to_token_stream());
    let body = rustfmt(&body);
    let body = body.trim_start_matches("fn __f()").trim();
    let body = if stub {
        "{ unimplemented!() }"
    } else if *PROBE.get().unwrap() {
        "{ vstd::pervasive::unreached() }"
    } else {
        body
    };
    let body = expand_markers(body, sp, &loops, report, &format!("{module}::{}", f.key));
    out.push_str(&body);
    out.push('\n');
    let end_line = out.lines().count();
    report.fns.push((format!("{module}::{}", f.key), start_line, end_line));
}

/// Replaces `__vloop!(n);`, `__vproof!("entry");` ... by verus text.
fn expand_markers(body: &str, sp: &FnSpec, loops: &[LoopInfo], report: &mut Report, fname: &str) -> String {
    if !loops.is_empty() {
        let sh: Vec<String> = loops
            .iter()
            .map(|l| format!("{}:{}:{}", l.kind, l.carried.len(), l.fixed.keys().cloned().collect::<Vec<_>>().join("+")))
            .collect();
        report.shapes.push((fname.to_string(), sh.join(" ")));
    }
    let mut s = body.to_string();
    // loops
    while let Some(p) = s.find("__vloop!(") {
        let e = p + s[p..].find(");").unwrap();
        let n: usize = s[p + "__vloop!(".len()..e].trim().parse().unwrap();
        let info = &loops[n];
        let brace = s[..p].rfind('{').unwrap();
        let mut text = String::new();
        let spec = sp.loops.get(&info.key());
        let mut inv = String::new();
        let mut invx = String::new();
        let mut dec = String::new();
        for l in &info.auto_inv {
            writeln!(inv, "{l},").unwrap();
        }
        if let Some(spec) = spec {
            let all_text = format!("{} {} {}", spec.invariant, spec.invariant_except_break, spec.decreases);
            for (dst, src) in [(&mut inv, &spec.invariant), (&mut invx, &spec.invariant_except_break), (&mut dec, &spec.decreases)] {
                for part in split_clauses(src) {
                    match info.subst(&part, &all_text) {
                        Ok(t) => writeln!(dst, "{t},").unwrap(),
                        Err(v) => report.notes.push(format!("{fname}: loop {}: `{v}` unresolved, clause dropped", info.key())),
                    }
                }
            }
        } else {
            report.notes.push(format!("{fname}: loop {} has no annotation", info.key()));
        }
        if dec.trim().is_empty() {
            if let Some(d) = &info.auto_dec {
                dec = d.clone();
            }
        }
        if !invx.trim().is_empty() {
            text.push_str(&clause("invariant_except_break", &invx));
        }
        if !inv.trim().is_empty() {
            text.push_str(&clause("invariant", &inv));
        }
        if !dec.trim().is_empty() {
            text.push_str(&clause("decreases", &dec));
        }
        let head = s[..brace].trim_end().to_string();
        let tail = s[e + 2..].to_string();
        s = format!("{head}\n{text}{{{tail}");
    }
    // ghost snapshot of an iterator's sequence
    while let Some(p) = s.find("__vghost!(") {
        let e = p + s[p..].find(");").unwrap();
        let a: Vec<String> = s[p + "__vghost!(".len()..e].split(',').map(|x| x.trim().to_string()).collect();
        s = format!("{}let ghost {} = {}.seq();{}", &s[..p], a[0], a[1], &s[e + 2..]);
    }
    let mut hooks: Vec<(String, &String)> = vec![("entry".into(), &sp.entry), ("at_exit".into(), &sp.at_exit), ("exit".into(), &sp.exit)];
    for (k, v) in &sp.after {
        hooks.push((format!("after_{k}"), v));
    }
    for (name, text) in hooks {
        let marker = format!("__vproof!({name});");
        while let Some(p) = s.find(&marker) {
            let t = if text.trim().is_empty() {
                String::new()
            } else if name != "exit" {
                text.trim_end().to_string()
            } else {
                format!("proof {{\n{}\n}}", text.trim_end())
            };
            s = format!("{}{}{}", &s[..p], t, &s[p + marker.len()..]);
        }
    }
    if sp.rejects {
        // an assertion of the source is how this function rejects its argument
        s = s.replace("crate::prelude::check_assert", "crate::prelude::reject_unless").replace("crate::prelude::check_unreachable", "crate::prelude::reject");
    }
    for (a, b) in &sp.body_subst {
        if !s.contains(a.as_str()) {
            report.notes.push(format!("{fname}: body_subst `{a}` did not match"));
        }
        s = s.replace(a.as_str(), b);
    }
    s
}

fn emit_item(out: &mut String, item: &syn::Item, spec: &ItemSpec, features: &[String], report: &mut Report) {
    for a in &spec.attrs {
        writeln!(out, "{a}").unwrap();
    }
    let mut item = item.clone();
    let text = item.to_token_stream().to_string();
    let derived = |n: &str| {
        text.split("derive").skip(1).any(|t| t.split(')').next().unwrap_or("").split(|c: char| !c.is_alphanumeric()).any(|w| w == n))
    };
    for d in &spec.derives {
        let syn::Item::Struct(st) = &item else { continue };
        if !derived(d.trim_end_matches("Assumed")) {
            report.lost.push(format!("derive({d}) for {}", st.ident));
            continue;
        }
        let (ig, tg, _) = st.generics.split_for_impl();
        let id = &st.ident;
        let fields = |f: &dyn Fn(&syn::Field) -> String| {
            st.fields.iter().map(|x| format!("{}: {}", x.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), f(x))).collect::<Vec<_>>().join(", ")
        };
        match d.as_str() {
            "Default" => {
                let v = fields(&|x| {
                    let t = x.ty.to_token_stream().to_string();
                    if t.starts_with("Option") { "None".into() } else if t == "bool" { "false".into() } else { "0".into() }
                });
                writeln!(out, "impl {} Default for {id} {} {{ fn default() -> (r: Self) ensures r == ({id} {{ {v} }}) {{ {id} {{ {v} }} }} }}", ig.to_token_stream(), tg.to_token_stream()).unwrap();
            }
            // cloning component by component, each clone being equal to its original
            "CloneAssumed" => {
                writeln!(out, "impl {} crate::shardprel::Clone for {id} {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) {{ unimplemented!() }} }}", ig.to_token_stream(), tg.to_token_stream()).unwrap();
            }
            "Clone" => {
                let v = fields(&|x| format!("self.{}", x.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()));
                writeln!(out, "impl {} Clone for {id} {} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ {id} {{ {v} }} }} }}", ig.to_token_stream(), tg.to_token_stream()).unwrap();
            }
            _ => {}
        }
    }
    match &mut item {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            for p in s.generics.type_params_mut() {
                p.default = None;
                p.eq_token = None;
            }
            s.vis = syn::parse_quote!(pub);
            SigTypes.visit_fields_mut(&mut s.fields);
            let fix = |fs: &mut syn::punctuated::Punctuated<syn::Field, syn::Token![,]>| {
                let keep: Vec<_> = fs.iter().filter(|f| cfg_ok(&f.attrs, features)).cloned().collect();
                fs.clear();
                for mut f in keep {
                    f.attrs.clear();
                    f.vis = syn::parse_quote!(pub);
                    fs.push(f);
                }
            };
            match &mut s.fields {
                syn::Fields::Named(n) => fix(&mut n.named),
                syn::Fields::Unnamed(n) => fix(&mut n.unnamed),
                _ => {}
            }
        }
        syn::Item::Enum(e) => {
            e.attrs.clear();
            e.vis = syn::parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        syn::Item::Const(c) => {
            c.attrs.clear();
            c.vis = syn::parse_quote!(pub);
        }
        syn::Item::Type(c) => {
            c.attrs.clear();
            c.vis = syn::parse_quote!(pub);
        }
        _ => {}
    }
    SigTypes.visit_item_mut(&mut item);
    let mut text = rustfmt(&item.to_token_stream().to_string());
    for (a, b) in &spec.subst {
        text = text.replace(a.as_str(), b);
    }
    out.push_str(&text);
    out.push('\n');
}

fn emit_trait(out: &mut String, t: &syn::ItemTrait, spec: &TraitSpec, report: &mut Report, module: &str) {
    let mut t = t.clone();
    t.attrs.clear();
    SigTypes.visit_item_trait_mut(&mut t);
    let g = t.generics.to_token_stream();
    let colon = if t.supertraits.is_empty() { String::new() } else { format!(": {}", t.supertraits.to_token_stream()) };
    let sup = spec.supertraits.clone().map(|s| format!(": {s}")).unwrap_or(colon);
    writeln!(out, "pub trait {}{}{} {{", t.ident, g, sup).unwrap();
    out.push_str(&indent(&spec.text, 4));
    for ti in &t.items {
        match ti {
            syn::TraitItem::Fn(f) => {
                let name = f.sig.ident.to_string();
                let Some(fs) = spec.fns.get(&name) else {
                    report.notes.push(format!("{module}::{}::{name}: trait method not under contract, dropped", t.ident));
                    continue;
                };
                let mut sig = f.sig.clone();
                strip_attrs_sig(&mut sig);
                let ret = match &sig.output {
                    syn::ReturnType::Default => None,
                    syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
                };
                sig.output = syn::ReturnType::Default;
                write!(out, "    {}", sig.to_token_stream()).unwrap();
                if let Some(r) = ret {
                    write!(out, " -> ({}: {})", fs.ret.clone().unwrap_or("__r".into()), r).unwrap();
                }
                writeln!(out).unwrap();
                out.push_str(&clause("requires", &fs.requires));
                out.push_str(&clause("ensures", &fs.ensures));
                writeln!(out, "    ;").unwrap();
            }
            syn::TraitItem::Type(ty) => {
                let mut ty = ty.clone();
                ty.attrs.clear();
                writeln!(out, "    {}", ty.to_token_stream()).unwrap();
            }
            _ => {}
        }
    }
    writeln!(out, "}}").unwrap();
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (srcdir, specdir, outp, rep) = (&args[1], &args[2], &args[3], &args[4]);
    let features: Vec<String> = args[5..].iter().filter(|a| !a.contains(':')).cloned().collect();
    let arg = |p: &str| args[5..].iter().filter_map(|a| a.strip_prefix(p).map(String::from)).collect::<Vec<_>>();
    // stub:FN   emit FN with its contract assumed and no body (its body is out of the verifier's reach)
    // probe:all emit every function with a body that is correct only if its precondition is contradictory
    STUBS.set(arg("stub:")).unwrap();
    PROBE.set(!arg("probe:").is_empty()).unwrap();
    let mut report = Report { lost: vec![], notes: vec![], fns: vec![], inlined: vec![], uncontracted: vec![], assumed: vec![], shapes: vec![] };
    let mut out = String::new();
    writeln!(out, "// generated from {srcdir} by /verif/extract; do not edit").unwrap();
    writeln!(out, "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_labels, unreachable_code, unused_assignments, unused_must_use, non_snake_case)]").unwrap();
    writeln!(out, "use vstd::prelude::*;\nverus! {{").unwrap();

    let order = std::fs::read_to_string(format!("{specdir}/ORDER")).expect("ORDER");
    let mut modules = vec![];
    let mut text_cache: BTreeMap<String, Source> = BTreeMap::new();
    for line in order.lines() {
        let line = line.split('#').next().unwrap().trim();
        if line.is_empty() {
            continue;
        }
        let text = std::fs::read_to_string(format!("{specdir}/{line}")).expect(line);
        modules.push(parse_spec(&choose(&text, &features)).unwrap_or_else(|e| panic!("{line}: {e}")));
    }
    for m in &modules {
        for f in &m.files {
            if !text_cache.contains_key(f) {
                match parse_source(&format!("{srcdir}/{f}"), &features) {
                    Ok(s) => {
                        text_cache.insert(f.clone(), s);
                    }
                    Err(e) => {
                        report.lost.push(e);
                        text_cache.insert(f.clone(), Source { file: f.clone(), items: vec![] });
                    }
                }
            }
        }
    }
    // contracted names over all modules, so that calls across modules are not inlined
    for m in &modules {
        writeln!(out, "pub mod {} {{", m.name).unwrap();
        let srcs: Vec<&Source> = m.files.iter().map(|f| &text_cache[f]).collect();
        let mut fns: Vec<FnSrc> = vec![];
        let mut macros = BTreeMap::new();
        for s in &srcs {
            fns.extend(collect_fns(s, &features));
            for it in &s.items {
                if let syn::Item::Macro(mm) = it {
                    if let Some(id) = &mm.ident {
                        macros.insert(id.to_string(), mm.mac.tokens.clone());
                    }
                }
            }
        }
        // helpers visible for inlining: every function of every module file without a contract
        let mut helpers: Vec<FnSrc> = vec![];
        for m2 in &modules {
            for f in &m2.files {
                for h in collect_fns(&text_cache[f], &features) {
                    if h.trait_.is_none() && !modules.iter().any(|m3| m3.files.contains(f) && m3.has_fn(&h.key)) && !helpers.iter().any(|x| x.key == h.key && x.file == h.file) {
                        helpers.push(h);
                    }
                }
            }
        }
        // methods known to the whole spec (contracted or prelude) are never inlined
        let mut all_names: BTreeMap<String, usize> = BTreeMap::new();
        let mut ty_files: BTreeMap<String, std::collections::BTreeSet<String>> = BTreeMap::new();
        let mut async_names = std::collections::BTreeSet::new();
        for s in text_cache.values() {
            for f in collect_fns(s, &features) {
                *all_names.entry(f.sig.ident.to_string()).or_default() += 1;
                if f.sig.asyncness.is_some() {
                    async_names.insert(f.sig.ident.to_string());
                }
                if !f.self_ty.is_empty() && f.trait_.is_none() {
                    ty_files.entry(f.self_ty.clone()).or_default().insert(f.file.clone());
                }
            }
        }
        let env = Env { features: features.clone(), macros, helpers, all_names, async_names, ty_files };
        let mut open = false;
        for sec in &m.sections {
            if open && !matches!(sec, Section::Fn(sp) if sp.join) {
                writeln!(out, "}}").unwrap();
                open = false;
            }
            match sec {
                Section::Text(t) => {
                    out.push_str(t);
                    out.push('\n');
                }
                Section::Item(is) => {
                    let found = srcs.iter().flat_map(|s| s.items.iter()).find(|i| match i {
                        syn::Item::Struct(s) => s.ident == is.name,
                        syn::Item::Enum(s) => s.ident == is.name,
                        syn::Item::Const(s) => s.ident == is.name,
                        syn::Item::Type(s) => s.ident == is.name,
                        _ => false,
                    });
                    match found {
                        Some(i) => emit_item(&mut out, i, is, &features, &mut report),
                        None => report.lost.push(format!("{}::{}", m.name, is.name)),
                    }
                }
                Section::Trait(ts) => {
                    let found = srcs.iter().flat_map(|s| s.items.iter()).find_map(|i| match i {
                        syn::Item::Trait(s) if s.ident == ts.name => Some(s),
                        _ => None,
                    });
                    match found {
                        Some(t) => emit_trait(&mut out, t, ts, &mut report, &m.name),
                        None => report.lost.push(format!("{}::{}", m.name, ts.name)),
                    }
                }
                Section::Fn(sp) => {
                    if !sp.feature.as_ref().map_or(true, |f| features.contains(f)) {
                        continue;
                    }
                    let cands: Vec<&FnSrc> = fns.iter().filter(|f| f.key == sp.key).collect();
                    let Some(f) = cands.get(sp.nth) else {
                        report.lost.push(format!("{}::{}", m.name, sp.key));
                        continue;
                    };
                    match &f.self_type {
                        None => emit_fn(&mut out, f, sp, &env, &mut report, &m.name),
                        Some(ty) => {
                            let mut ty = ty.clone();
                            let mut g = f.generics.clone();
                            SigTypes.visit_type_mut(&mut ty);
                            SigTypes.visit_generics_mut(&mut g);
                            let wc = g.where_clause.take();
                            let (mut gs, mut ts) = (g.to_token_stream().to_string(), ty.to_token_stream().to_string());
                            if let Some(t) = &sp.impl_generics {
                                gs = t.clone();
                            }
                            if let Some(t) = &sp.as_inherent {
                                if !t.is_empty() {
                                    ts = t.clone();
                                }
                            }
                            let mut hdr = match (&f.trait_, &sp.as_inherent) {
                                (Some(tr), None) => {
                                    let mut tr = tr.clone();
                                    SigTypes.visit_path_mut(&mut tr);
                                    format!("impl{gs} {} for {ts}", tr.to_token_stream())
                                }
                                _ => format!("impl{gs} {ts}"),
                            };
                            if let Some(w) = wc {
                                write!(hdr, " {}", w.to_token_stream()).unwrap();
                            }
                            for (a, b) in &sp.impl_subst {
                                if !hdr.contains(a.as_str()) {
                                    report.notes.push(format!("{}::{}: impl_subst `{a}` did not match", m.name, f.key));
                                }
                                hdr = hdr.replace(a.as_str(), b);
                            }
                            if !(sp.join && open) {
                                writeln!(out, "{hdr} {{").unwrap();
                            }
                            out.push_str(&sp.impl_text);
                            emit_fn(&mut out, f, sp, &env, &mut report, &m.name);
                            open = true;
                        }
                    }
                }
            }
        }
        if open {
            writeln!(out, "}}").unwrap();
        }
        for f in &fns {
            if !modules.iter().any(|m3| m3.files.contains(&f.file) && m3.has_fn(&f.key)) && !report.uncontracted.contains(&format!("{}::{}", m.name, f.key)) {
                report.uncontracted.push(format!("{}::{}", m.name, f.key));
            }
        }
        writeln!(out, "}}").unwrap();
    }
    writeln!(out, "}} // verus!\nfn main() {{}}").unwrap();
    std::fs::write(outp, &out).expect("write out");
    let fns = report
        .fns
        .iter()
        .map(|(n, a, b)| format!("{{\"fn\":{},\"start\":{a},\"end\":{b}}}", json_str(n)))
        .collect::<Vec<_>>()
        .join(",\n  ");
    let rj = format!(
        "{{\n \"lost\": {},\n \"notes\": {},\n \"inlined\": {},\n \"uncontracted\": {},\n \"assumed\": {},\n \"shapes\": {{{}}},\n \"fns\": [{}]\n}}\n",
        json_list(&report.lost),
        json_list(&report.notes),
        json_list(&report.inlined),
        json_list(&report.uncontracted),
        json_list(&report.assumed),
        report.shapes.iter().map(|(a, b)| format!("{}: {}", json_str(a), json_str(b))).collect::<Vec<_>>().join(", "),
        fns
    );
    std::fs::write(rep, rj).expect("write report");
}
