//! Spec file parser.  Line oriented; a line starting with `@@` opens a section.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopSpec {
    pub invariant: String,
    pub invariant_except_break: String,
    pub decreases: String,
}
#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub key: String,
    pub nth: usize,
    pub feature: Option<String>,
    pub ret: Option<String>,
    pub ret_type: Option<String>,
    pub rename: Option<String>,
    pub as_inherent: Option<String>,
    pub attrs: Vec<String>,
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub entry: String,
    pub exit: String,
    /// executable statements at every exit (implicit drops made explicit)
    pub at_exit: String,
    /// part of the impl block of the previous function
    pub join: bool,
    pub impl_text: String,
    pub drop_self: bool,
    pub assume: bool,
    pub rejects: bool,
    pub desugar_try: bool,
    pub clock: bool,
    pub dropped: Vec<String>,
    pub assign_drops: bool,
    /// element types of `collect::<Vec<_>>()`, by order of appearance (1-based)
    pub acc_types: BTreeMap<usize, String>,
    pub after: BTreeMap<String, String>,
    pub sig_subst: Vec<(String, String)>,
    pub impl_subst: Vec<(String, String)>,
    pub impl_generics: Option<String>,
    pub body_subst: Vec<(String, String)>,
    pub loops: BTreeMap<String, LoopSpec>,
}
#[derive(Default, Debug, Clone)]
pub struct ItemSpec {
    pub name: String,
    pub attrs: Vec<String>,
    pub subst: Vec<(String, String)>,
    pub derives: Vec<String>,
}
#[derive(Default, Debug, Clone)]
pub struct TraitSpec {
    pub name: String,
    pub supertraits: Option<String>,
    pub text: String,
    pub fns: BTreeMap<String, FnSpec>,
}
#[derive(Debug, Clone)]
pub enum Section {
    Text(String),
    Item(ItemSpec),
    Trait(TraitSpec),
    Fn(FnSpec),
}
#[derive(Debug)]
pub struct ModuleSpec {
    pub name: String,
    pub files: Vec<String>,
    pub sections: Vec<Section>,
}
impl ModuleSpec {
    pub fn has_fn(&self, key: &str) -> bool {
        self.sections.iter().any(|s| matches!(s, Section::Fn(f) if f.key == key))
    }
}

/// Splits a clause list at top-level commas that end a line.
pub fn split_clauses(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut depth = 0i32;
    for line in s.lines() {
        let code = line.split("//").next().unwrap();
        for c in code.chars() {
            match c {
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => depth -= 1,
                _ => {}
            }
        }
        let t = code.trim_end();
        if depth == 0 && t.ends_with(',') {
            let comment = &line[code.len()..];
            let body = t.trim_end_matches(',');
            cur.push_str(body);
            if !comment.is_empty() {
                cur = format!("/*{}*/ {}", comment.trim_start_matches('/').trim(), cur.trim_start());
            }
            out.push(std::mem::take(&mut cur));
        } else {
            cur.push_str(code);
            cur.push('\n');
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim_end().to_string());
    }
    out
}

fn arrow(s: &str) -> Result<(String, String), String> {
    let (a, b) = s.split_once("=>").ok_or(format!("expected `a => b` in `{s}`"))?;
    Ok((a.trim().replace("\\n", "\n"), b.trim().replace("\\n", "\n")))
}

fn fill_fn(f: &mut FnSpec, head: &str, body: &str) -> Result<(), String> {
    let (kw, rest) = head.split_once(char::is_whitespace).unwrap_or((head, ""));
    let rest = rest.trim();
    let body_s = body.to_string();
    match kw {
        "nth" => f.nth = rest.parse().map_err(|e| format!("{e}"))?,
        "feature" => f.feature = Some(rest.into()),
        "ret" => f.ret = Some(rest.into()),
        "ret_type" => f.ret_type = Some(rest.into()),
        "rename" => f.rename = Some(rest.into()),
        "as_inherent" => f.as_inherent = Some(rest.into()),
        "attr" => f.attrs.push(rest.into()),
        "drop_self" => f.drop_self = true,
        "assume" => f.assume = true,
        "rejects" => f.rejects = true,
        "collect_type" => {
            let (n, t) = rest.split_once(' ').ok_or("collect_type")?;
            f.acc_types.insert(n.parse().map_err(|e| format!("{e}"))?, t.into());
        }
        "desugar_try" => f.desugar_try = true,
        "clock" => f.clock = true,
        "dropped" => f.dropped.push(rest.into()),
        "assign_drops" => f.assign_drops = true,
        "after" => f.after.entry(rest.into()).or_default().push_str(&body_s),
        "impl_generics" => f.impl_generics = Some(rest.into()),
        "sig_subst" => f.sig_subst.push(arrow(rest)?),
        "impl_subst" => f.impl_subst.push(arrow(rest)?),
        "body_subst" => f.body_subst.push(arrow(rest)?),
        "requires" => f.requires.push_str(&body_s),
        "ensures" => f.ensures.push_str(&body_s),
        "decreases" => f.decreases.push_str(&body_s),
        "entry" => f.entry.push_str(&body_s),
        "at_exit" => f.at_exit.push_str(&body_s),
        "join" => f.join = true,
        "exit" => f.exit.push_str(&body_s),
        "impl_text" => f.impl_text.push_str(&body_s),
        "loop" => {
            let mut it = rest.rsplitn(2, ' ');
            let part = it.next().unwrap_or("");
            let key = it.next().unwrap_or("").trim().to_string();
            let l = f.loops.entry(key).or_default();
            match part {
                "invariant" => l.invariant.push_str(&body_s),
                "invariant_except_break" => l.invariant_except_break.push_str(&body_s),
                "decreases" => l.decreases.push_str(&body_s),
                _ => return Err(format!("loop part `{part}`")),
            }
        }
        "" => {}
        _ => return Err(format!("unknown directive `{kw}`")),
    }
    Ok(())
}

/// Directives inside a section start with `@`; their body is the following lines up to the next `@`.
fn directives(body: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for line in body.lines() {
        if let Some(d) = line.strip_prefix('@') {
            out.push((d.trim().to_string(), String::new()));
        } else if let Some(l) = out.last_mut() {
            l.1.push_str(line);
            l.1.push('\n');
        }
    }
    out
}

/// `@@macro NAME` sections are text; a line `!NAME arg` stands for that text with `%%` replaced by `arg`.
fn expand_macros(text: &str) -> String {
    let mut macros: BTreeMap<String, String> = BTreeMap::new();
    let mut out = String::new();
    let mut cur: Option<String> = None;
    for line in text.lines() {
        if let Some(n) = line.strip_prefix("@@macro ") {
            cur = Some(n.trim().to_string());
            continue;
        }
        if line.starts_with("@@") {
            cur = None;
        }
        let nested = line.trim().strip_prefix('!').and_then(|r| r.split_once(' ')).and_then(|(n, arg)| macros.get(n).map(|m| m.replace("%%", arg.trim())));
        if let Some(c) = &cur {
            if let Some(n) = nested {
                macros.entry(c.clone()).or_default().push_str(&n);
                continue;
            }
            let e = macros.entry(c.clone()).or_default();
            e.push_str(line);
            e.push('\n');
            continue;
        }
        if let Some(n) = nested {
            out.push_str(&n);
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    out
}

/// `@@if FEATURE` .. `@@else` .. `@@endif`
pub fn choose(text: &str, features: &[String]) -> String {
    let mut out = String::new();
    let mut on = true;
    for line in text.lines() {
        if let Some(f) = line.strip_prefix("@@if ") {
            on = features.iter().any(|x| x == f.trim());
        } else if line == "@@else" {
            on = !on;
        } else if line == "@@endif" {
            on = true;
        } else if on {
            out.push_str(line);
            out.push('\n');
        }
    }
    out
}
pub fn parse_spec(text: &str) -> Result<ModuleSpec, String> {
    let mut m = ModuleSpec { name: String::new(), files: vec![], sections: vec![] };
    let mut secs: Vec<(String, String)> = vec![];
    let text = expand_macros(text);
    for line in text.lines() {
        if let Some(h) = line.strip_prefix("@@") {
            secs.push((h.trim().to_string(), String::new()));
        } else if let Some(l) = secs.last_mut() {
            l.1.push_str(line);
            l.1.push('\n');
        }
    }
    for (h, body) in secs {
        let (kw, rest) = h.split_once(char::is_whitespace).unwrap_or((&h, ""));
        let rest = rest.trim();
        match kw {
            "module" => m.name = rest.into(),
            "file" => m.files.push(rest.into()),
            "text" => m.sections.push(Section::Text(body)),
            "item" => {
                let mut is = ItemSpec { name: rest.into(), ..Default::default() };
                for (d, _) in directives(&body) {
                    if let Some(a) = d.strip_prefix("attr ") {
                        is.attrs.push(a.into());
                    } else if let Some(a) = d.strip_prefix("derive ") {
                        is.derives.push(a.trim().into());
                    } else if let Some(a) = d.strip_prefix("subst ") {
                        is.subst.push(arrow(a)?);
                    }
                }
                m.sections.push(Section::Item(is));
            }
            "trait" => {
                let mut ts = TraitSpec { name: rest.into(), ..Default::default() };
                let mut cur: Option<String> = None;
                for (d, b) in directives(&body) {
                    if let Some(n) = d.strip_prefix("fn ") {
                        let n = n.trim().to_string();
                        ts.fns.insert(n.clone(), FnSpec { key: n.clone(), ..Default::default() });
                        cur = Some(n);
                    } else if d == "text" {
                        ts.text.push_str(&b);
                    } else if let Some(s) = d.strip_prefix("supertraits ") {
                        ts.supertraits = Some(s.into());
                    } else if let Some(c) = &cur {
                        fill_fn(ts.fns.get_mut(c).unwrap(), &d, &b)?;
                    }
                }
                m.sections.push(Section::Trait(ts));
            }
            "fn" => {
                let mut f = FnSpec { key: rest.into(), ..Default::default() };
                for (d, b) in directives(&body) {
                    fill_fn(&mut f, &d, &b).map_err(|e| format!("{rest}: {e}"))?;
                }
                m.sections.push(Section::Fn(f));
            }
            "--" => {}
            _ => return Err(format!("unknown section `{kw}`")),
        }
    }
    Ok(m)
}
