//! Lookup of items in the real source.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use std::rc::Rc;
use syn::{spanned::Spanned, *};

pub struct Sources {
    repo: String,
    expanded: Option<String>,
    files: HashMap<String, std::result::Result<Rc<File>, String>>,
}

#[derive(Clone)]
pub struct FnSrc {
    pub sig: Signature,
    pub block: Option<Block>,
    /// free function or inherent method: gets `pub`
    pub inherent: bool,
    pub line: usize,
}

/// Tokens without whitespace and lifetimes.
pub fn norm(ts: TokenStream) -> String {
    let mut out = String::new();
    let mut skip_comma = false;
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '\'' => {
                it.next();
                skip_comma = true;
                continue;
            }
            TokenTree::Punct(p) if p.as_char() == ',' && skip_comma => {
                skip_comma = false;
                continue;
            }
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    _ => ("", ""),
                };
                out.push_str(o);
                out.push_str(&norm(g.stream()));
                out.push_str(c);
            }
            t => {
                let s = t.to_string();
                let w = |c: char| c.is_alphanumeric() || c == '_';
                if out.ends_with(w) && s.starts_with(w) {
                    out.push(' ');
                }
                out.push_str(&s);
            }
        }
        skip_comma = false;
    }
    // `X<>` left over from dropped lifetimes
    out.replace("<>", "").replace(",>", ">").replace("'_", "")
}

fn norm_str(s: &str) -> String {
    match s.parse::<TokenStream>() {
        Ok(t) => norm(t),
        Err(_) => s.replace(' ', ""),
    }
}

pub fn impl_key(i: &ItemImpl) -> String {
    let st = norm(i.self_ty.to_token_stream());
    match &i.trait_ {
        Some((_, p, _)) => {
            let mut p = p.clone();
            // `crate::join::Join` and `Join` are the same key
            if p.segments.len() > 1 {
                let last = p.segments.last().unwrap().clone();
                p = Path { leading_colon: None, segments: std::iter::once(last).collect() };
            }
            format!("{} for {}", norm(p.to_token_stream()), st)
        }
        None => st,
    }
}

fn self_ident(i: &ItemImpl) -> String {
    if let Type::Path(p) = &*i.self_ty {
        return p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    }
    String::new()
}

impl Sources {
    pub fn new(repo: String, expanded: Option<String>) -> Self {
        Sources { repo, expanded, files: HashMap::new() }
    }
    /// `src/x.rs`, or `expanded:x` for module `x` of the macro-expanded crate.
    pub fn file(&mut self, name: &str) -> std::result::Result<Rc<File>, String> {
        if let Some(f) = self.files.get(name) {
            return f.clone();
        }
        let r = self.read(name);
        self.files.insert(name.to_string(), r.clone());
        r
    }
    fn read(&self, name: &str) -> std::result::Result<Rc<File>, String> {
        let (path, module) = match name.strip_prefix("expanded:") {
            Some(m) => (self.expanded.clone().ok_or("no expanded source given")?, Some(m)),
            None => (format!("{}/{}", self.repo, name), None),
        };
        let t = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
        let f = parse_file(&t).map_err(|e| format!("{path}: {e}"))?;
        if let Some(m) = module {
            for it in &f.items {
                if let Item::Mod(im) = it {
                    if im.ident == m {
                        if let Some((_, items)) = &im.content {
                            return Ok(Rc::new(File { shebang: None, attrs: vec![], items: items.clone() }));
                        }
                    }
                }
            }
            return Err(format!("no module {m} in expanded source"));
        }
        Ok(Rc::new(f))
    }

    /// Every function of a file: impl or trait it is in, name, line.
    pub fn inventory(&mut self, file: &str) -> Vec<(String, String, usize)> {
        let mut v = vec![];
        if let Ok(f) = self.file(file) {
            walk(&all_items(&f.items), "", &mut v);
        }
        v
    }

    pub fn impls(&mut self, file: &str, key: &str) -> std::result::Result<Vec<ItemImpl>, String> {
        let f = self.file(file)?;
        let key = match key.split_once(" for ") {
            Some((a, b)) => format!("{} for {}", norm_str(a), norm_str(b)),
            None => norm_str(key),
        };
        let mut v = vec![];
        for it in all_items(&f.items) {
            if let Item::Impl(i) = it {
                if impl_key(&i) == key || (i.trait_.is_none() && self_ident(&i) == key) {
                    v.push(i);
                }
            }
        }
        Ok(v)
    }

    /// `SEL` is `Type :: f`, `Trait for Type :: f`, `trait T :: f`, `fn f`, each optionally
    /// followed by `/inner` steps into nested items (`f` or `Trait for Type :: f`).
    pub fn find_fn(&mut self, file: &str, sel: &str) -> std::result::Result<FnSrc, String> {
        let mut parts = sel.split(" / ");
        let first = parts.next().unwrap().trim();
        let f = self.file(file)?;
        let items = all_items(&f.items);
        let mut cur = find_in(&items, first).ok_or_else(|| format!("{file}: `{first}` not found"))?;
        for p in parts {
            let mut items = vec![];
            if let Some(b) = &cur.block {
                collect_items(b, &mut items);
            }
            cur = find_in(&items, p.trim()).ok_or_else(|| format!("{file}: `{sel}` not found"))?;
        }
        Ok(cur)
    }
    /// An inner function or method available for inlining.
    pub fn find_helper(&mut self, file: &str, self_key: Option<&str>, name: &str) -> Option<FnSrc> {
        let f = self.file(file).ok()?;
        let items = all_items(&f.items);
        match self_key {
            Some(k) => find_in(&items, &format!("{k} :: {name}")),
            None => find_in(&items, &format!("fn {name}")),
        }
    }
    pub fn find_item(&mut self, file: &str, name: &str) -> std::result::Result<Item, String> {
        let (file_, path) = (file, name);
        let f = self.file(file_)?;
        for it in all_items(&f.items) {
            let id = match &it {
                Item::Struct(s) => s.ident.to_string(),
                Item::Enum(s) => s.ident.to_string(),
                Item::Const(s) => s.ident.to_string(),
                Item::Type(s) => s.ident.to_string(),
                Item::Trait(s) => s.ident.to_string(),
                _ => continue,
            };
            if id == path {
                return Ok(it);
            }
        }
        Err(format!("{file}: item `{name}` not found"))
    }
    /// Struct nested in a function body.
    pub fn find_nested_struct(&mut self, file: &str, sel: &str, name: &str) -> std::result::Result<Item, String> {
        let f = self.find_fn(file, sel)?;
        let mut items = vec![];
        if let Some(b) = &f.block {
            collect_items(b, &mut items);
        }
        for it in items {
            if let Item::Struct(s) = &it {
                if s.ident == name {
                    return Ok(it);
                }
            }
        }
        Err(format!("{file}: struct `{name}` in `{sel}` not found"))
    }
}

fn walk(items: &[Item], pre: &str, v: &mut Vec<(String, String, usize)>) {
    let inner = |b: &Block, n: String, v: &mut Vec<(String, String, usize)>| {
        let mut it = vec![];
        collect_items(b, &mut it);
        walk(&it, &format!("{n} / "), v);
    };
    for i in items {
        match i {
            Item::Fn(f) => {
                v.push((format!("{pre}fn"), f.sig.ident.to_string(), f.span().start().line));
                inner(&f.block, format!("{pre}fn {}", f.sig.ident), v);
            }
            Item::Impl(im) => {
                for m in &im.items {
                    if let ImplItem::Fn(f) = m {
                        v.push((format!("{pre}{}", impl_key(im)), f.sig.ident.to_string(), f.span().start().line));
                        inner(&f.block, format!("{pre}{} :: {}", impl_key(im), f.sig.ident), v);
                    }
                }
            }
            Item::Trait(t) => {
                for m in &t.items {
                    if let TraitItem::Fn(f) = m {
                        v.push((format!("{pre}trait {}", t.ident), f.sig.ident.to_string(), f.span().start().line));
                        if let Some(b) = &f.default {
                            inner(b, format!("{pre}trait {} :: {}", t.ident, f.sig.ident), v);
                        }
                    }
                }
            }
            _ => (),
        }
    }
}

fn all_items(items: &[Item]) -> Vec<Item> {
    let mut v = vec![];
    for i in items {
        match i {
            Item::Mod(m) => {
                if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
                    continue;
                }
                if let Some((_, c)) = &m.content {
                    v.extend(all_items(c));
                }
            }
            _ => v.push(i.clone()),
        }
    }
    v
}

fn collect_items(b: &Block, out: &mut Vec<Item>) {
    for s in &b.stmts {
        if let Stmt::Item(i) = s {
            out.push(i.clone());
        }
    }
}

fn find_in(items: &[Item], sel: &str) -> Option<FnSrc> {
    if let Some(n) = sel.strip_prefix("fn ") {
        for i in items {
            if let Item::Fn(f) = i {
                if f.sig.ident == n.trim() {
                    return Some(FnSrc { sig: f.sig.clone(), block: Some((*f.block).clone()), inherent: true, line: f.span().start().line });
                }
            }
        }
        return None;
    }
    let (key, name) = sel.rsplit_once(" :: ")?;
    let name = name.trim();
    if let Some(t) = key.trim().strip_prefix("trait ") {
        for i in items {
            if let Item::Trait(tr) = i {
                if tr.ident == t.trim() {
                    for m in &tr.items {
                        if let TraitItem::Fn(f) = m {
                            if f.sig.ident == name {
                                return Some(FnSrc { sig: f.sig.clone(), block: f.default.clone(), inherent: false, line: f.span().start().line });
                            }
                        }
                    }
                }
            }
        }
        return None;
    }
    let key = match key.split_once(" for ") {
        Some((a, b)) => format!("{} for {}", norm_str(a), norm_str(b)),
        None => norm_str(key),
    };
    for i in items {
        if let Item::Impl(im) = i {
            if impl_key(im) == key || (im.trait_.is_none() && self_ident(im) == key) {
                for m in &im.items {
                    if let ImplItem::Fn(f) = m {
                        if f.sig.ident == name {
                            return Some(FnSrc {
                                sig: f.sig.clone(),
                                block: Some(f.block.clone()),
                                inherent: im.trait_.is_none(),
                                line: f.span().start().line,
                            });
                        }
                    }
                }
            }
        }
    }
    None
}
