//! Unit templates: Verus text plus `//@` directives.
//!
//!   //@include FILE
//!   //@import FILE MODULE               another unit, its functions taken at their contracts
//!   //@own                              what comes before is not part of the module of an import
//!   //@refmut NAME..                    calls NAME(&x) are printed NAME(&mut x)
//!   //@ghostarg NAME.. = EXPR           in functions with the option `log`, calls of NAME get one more (ghost) argument
//!   //@struct FILE | NAME | opts        struct or enum, all fields public
//!   //@const FILE | NAME    //@type FILE | NAME
//!   //@impl FILE | KEY | map A => B     prints the header `impl<..> .. {`
//!   //@assoc FILE | KEY | NAME          prints the associated type of that impl
//!   //@derive_default FILE | NAME | opts   + block
//!   //@fn FILE | SELECTOR | opts        + block
//! block: //@ret r, //@spec, //@entry, //@tail, //@loop N, //@loopdec N, //@loopens N, //@looptop N,
//!        //@loopend N, //@map A => B, //@panicif E, ... //@end
use crate::print::Printer;
use crate::source::{FnSrc, Sources};
use crate::transform::{LoopSpec, Tx};
use proc_macro2::{Group, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Generated {
    pub text: String,
    pub map: String,
}

pub fn load(path: &str) -> std::io::Result<String> {
    load_in(path, &mut HashSet::new())
}
/// Every included file appears once. An imported unit becomes a module whose functions are
/// taken at their contracts (they are proved where the unit is checked itself).
fn load_in(path: &str, seen: &mut HashSet<String>) -> std::io::Result<String> {
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let (mut head, mut out) = (String::new(), String::new());
    for l in std::fs::read_to_string(path)?.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            if seen.insert(f.trim().to_string()) {
                out.push_str(&load_in(dir.join(f.trim()).to_str().unwrap(), seen)?);
            }
        } else if let Some(f) = l.trim().strip_prefix("//@import ") {
            let (f, m) = f.trim().split_once(' ').unwrap_or((f.trim(), "m_imported"));
            if seen.insert(f.to_string()) {
                let text = load_in(dir.join(f).to_str().unwrap(), seen)?;
                // what was included at the top stays outside
                let (inc, own) = text.split_once("//@own\n").unwrap_or(("", text.as_str()));
                out.push_str(inc);
                out.push_str(&format!("//@assumed on\npub use {m}::*;\npub mod {m} {{\nuse vstd::prelude::*;\nuse super::*;\n"));
                out.push_str(&own.replace("\nfn main() {}", "").replace("//@own\n", ""));
                out.push_str("}\n//@assumed off\n");
            }
        } else {
            if l.trim() == "//@own" {
                head = std::mem::take(&mut out);
            }
            out.push_str(l);
            out.push('\n');
        }
    }
    head.push_str(&out);
    Ok(head)
}

#[derive(Default, Clone)]
struct Block_ {
    ret: String,
    spec: String,
    entry: String,
    tail: String,
    loops: HashMap<usize, LoopSpec>,
    maps: Vec<(String, String)>,
    panic_if: Option<String>,
    closures: HashMap<usize, String>,
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn toks(s: &str) -> Vec<TokenTree> {
    s.parse::<TokenStream>().map(|t| t.into_iter().collect()).unwrap_or_default()
}
fn eq(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => {
            x.delimiter() == y.delimiter() && {
                let (x, y): (Vec<_>, Vec<_>) = (x.stream().into_iter().collect(), y.stream().into_iter().collect());
                x.len() == y.len() && x.iter().zip(&y).all(|(a, b)| eq(a, b))
            }
        }
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}
/// token-sequence replacement
fn remap(ts: TokenStream, from: &[TokenTree], to: &[TokenTree], n: &mut usize) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if !from.is_empty() && i + from.len() <= v.len() && v[i..i + from.len()].iter().zip(from).all(|(a, b)| eq(a, b)) {
            out.extend(to.iter().cloned());
            i += from.len();
            *n += 1;
            continue;
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => {
                let mut h = Group::new(g.delimiter(), remap(g.stream(), from, to, n));
                h.set_span(g.span());
                TokenTree::Group(h)
            }
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}
fn apply_maps(mut ts: TokenStream, maps: &[(String, String)], n: &mut usize) -> TokenStream {
    for (a, b) in maps {
        ts = remap(ts, &toks(a.trim_start_matches('\u{1}')), &toks(b), n);
    }
    ts
}

fn strip_vis(v: &mut Visibility) {
    *v = parse_quote!(pub);
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for t in l.tokens.to_string().split(',') {
                    v.push(t.trim().rsplit("::").next().unwrap().trim().to_string());
                }
            }
        }
    }
    v
}

fn opts(s: &str) -> (HashMap<String, String>, Vec<(String, String)>) {
    let mut o = HashMap::new();
    let mut maps = vec![];
    // `map A => B` parts are separated by `;`
    for part in s.split(';') {
        let part = part.trim();
        if let Some(m) = part.strip_prefix("map ") {
            if let Some((a, b)) = m.split_once("=>") {
                maps.push((a.trim().to_string(), b.trim().to_string()));
            }
            continue;
        }
        // `map!`: without a use of it in the body, a failed obligation of this function means nothing
        if let Some(m) = part.strip_prefix("map! ") {
            if let Some((a, b)) = m.split_once("=>") {
                maps.push((format!("\u{1}{}", a.trim()), b.trim().to_string()));
            }
            continue;
        }
        for w in part.split_whitespace() {
            match w.split_once('=') {
                Some((a, b)) => o.insert(a.to_string(), b.to_string()),
                None => o.insert(w.to_string(), String::new()),
            };
        }
    }
    (o, maps)
}

fn parse_block<'a>(it: &mut dyn Iterator<Item = &'a str>) -> Block_ {
    let mut b = Block_::default();
    let mut cur: (String, usize) = ("spec".into(), 0);
    for l in it {
        let t = l.trim();
        if t == "//@end" {
            break;
        }
        if let Some(d) = t.strip_prefix("//@") {
            let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match w {
                "ret" => b.ret = rest.to_string(),
                "map" => {
                    if let Some((x, y)) = rest.split_once("=>") {
                        b.maps.push((x.trim().to_string(), y.trim().to_string()));
                    }
                }
                "map!" => {
                    if let Some((x, y)) = rest.split_once("=>") {
                        b.maps.push((format!("\u{1}{}", x.trim()), y.trim().to_string()));
                    }
                }
                "panicif" => b.panic_if = Some(rest.to_string()),
                _ => cur = (w.to_string(), rest.parse().unwrap_or(0)),
            }
            continue;
        }
        let dst = match cur.0.as_str() {
            "spec" => &mut b.spec,
            "entry" => &mut b.entry,
            "tail" => &mut b.tail,
            "loop" => &mut b.loops.entry(cur.1).or_default().inv,
            "loopdec" => &mut b.loops.entry(cur.1).or_default().dec,
            "loopens" => &mut b.loops.entry(cur.1).or_default().ens,
            "looptop" => &mut b.loops.entry(cur.1).or_default().top,
            "loopbefore" => &mut b.loops.entry(cur.1).or_default().before,
            "closure" => b.closures.entry(cur.1).or_default(),
            "loopend" => &mut b.loops.entry(cur.1).or_default().end,
            x => panic!("unknown section {x}"),
        };
        dst.push_str(l);
        dst.push('\n');
    }
    b
}

pub fn generate(text: &str, sources: &mut Sources, stubs: &[String], vacuity: bool) -> Generated {
    // names with a contract, or defined by the template itself
    let mut known: HashSet<String> = HashSet::new();
    let mut refmut: HashSet<String> = HashSet::new();
    let mut ghostarg: HashMap<String, String> = HashMap::new();
    for l in text.lines() {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@fn ") {
            let p: Vec<&str> = d.split('|').collect();
            if p.len() > 1 {
                let s = p[1].trim();
                let last = s.rsplit(" / ").next().unwrap();
                let n = last.rsplit(" :: ").next().unwrap().trim();
                known.insert(n.trim_start_matches("fn ").trim().to_string());
            }
        } else if let Some(d) = t.strip_prefix("//@refmut ") {
            refmut.extend(d.split_whitespace().map(|s| s.to_string()));
        } else if let Some(d) = t.strip_prefix("//@ghostarg ") {
            if let Some((a, b)) = d.split_once('=') {
                for n in a.split_whitespace() {
                    ghostarg.insert(n.to_string(), b.trim().to_string());
                }
            }
        } else if !t.starts_with("//") {
            let mut rest = t;
            while let Some(i) = rest.find("fn ") {
                let before_ok = i == 0 || !rest.as_bytes()[i - 1].is_ascii_alphanumeric();
                rest = &rest[i + 3..];
                if before_ok {
                    let n: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    if !n.is_empty() {
                        known.insert(n);
                    }
                }
            }
        }
    }
    let mut out = String::new();
    let mut fns: Vec<String> = vec![];
    let mut missing: Vec<String> = vec![];
    let mut items: Vec<String> = vec![];
    let mut it = text.lines();
    let mut uniq: HashMap<String, usize> = HashMap::new();
    let mut assumed = 0;
    while let Some(l) = it.next() {
        let t = l.trim();
        let indent = (l.len() - l.trim_start().len()) / 4;
        let Some(d) = t.strip_prefix("//@") else {
            out.push_str(l);
            out.push('\n');
            continue;
        };
        let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
        let parts: Vec<&str> = rest.split('|').map(|s| s.trim()).collect();
        let (o, maps) = opts(parts.get(2).copied().unwrap_or(""));
        let mut nmap = 0;
        match w {
            "refmut" | "ghostarg" | "own" => {}
            "assumed" => assumed += if rest == "on" { 1 } else { -1 },
            "struct" => {
                let r = match o.get("in") {
                    Some(sel) => sources.find_nested_struct(parts[0], &sel.replace('_', " "), parts[1]),
                    None => sources.find_item(parts[0], parts[1]),
                };
                match r {
                    Ok(Item::Struct(mut s)) => {
                        let d = derives(&s.attrs);
                        s.attrs.clear();
                        strip_vis(&mut s.vis);
                        for f in s.fields.iter_mut() {
                            f.attrs.clear();
                            strip_vis(&mut f.vis);
                        }
                        out.push_str(&derive_line(&d, &o));
                        let ts = apply_maps(s.to_token_stream(), &maps, &mut nmap);
                        out.push_str(&Printer::new(&[]).print(ts, indent));
                        out.push('\n');
                        items.push(json(parts[1]));
                    }
                    Ok(Item::Enum(mut s)) => {
                        let d = derives(&s.attrs);
                        s.attrs.clear();
                        strip_vis(&mut s.vis);
                        for v in s.variants.iter_mut() {
                            v.attrs.clear();
                        }
                        out.push_str(&derive_line(&d, &o));
                        let ts = apply_maps(s.to_token_stream(), &maps, &mut nmap);
                        out.push_str(&Printer::new(&[]).print(ts, indent));
                        out.push('\n');
                        items.push(json(parts[1]));
                    }
                    Ok(_) => missing.push(format!("{}: {} is not a struct", parts[0], parts[1])),
                    Err(e) => missing.push(e),
                }
            }
            "const" | "type" => match sources.find_item(parts[0], parts[1]) {
                Ok(Item::Const(mut c)) => {
                    c.attrs.clear();
                    strip_vis(&mut c.vis);
                    let ts = apply_maps(c.to_token_stream(), &maps, &mut nmap);
                    out.push_str(&Printer::new(&[]).print(ts, indent));
                    out.push('\n');
                    items.push(json(parts[1]));
                }
                Ok(Item::Type(mut c)) => {
                    c.attrs.clear();
                    strip_vis(&mut c.vis);
                    let ts = apply_maps(c.to_token_stream(), &maps, &mut nmap);
                    out.push_str(&Printer::new(&[]).print(ts, indent));
                    out.push('\n');
                    items.push(json(parts[1]));
                }
                Ok(_) => missing.push(format!("{}: {} has another kind", parts[0], parts[1])),
                Err(e) => missing.push(e),
            },
            "impl" => match sources.impls(parts[0], parts[1]) {
                Ok(v) if !v.is_empty() => {
                    let k: usize = o.get("nth").and_then(|s| s.parse().ok()).unwrap_or(0);
                    let mut i = v[k.min(v.len() - 1)].clone();
                    i.attrs.clear();
                    i.items.clear();
                    let ts = apply_maps(i.to_token_stream(), &maps, &mut nmap);
                    let mut s = Printer::new(&[]).print(ts, indent);
                    while s.ends_with(char::is_whitespace) {
                        s.pop();
                    }
                    if s.ends_with('}') {
                        s.pop();
                    }
                    out.push_str(&s);
                    out.push('\n');
                }
                Ok(_) => {
                    missing.push(format!("{}: impl `{}` not found", parts[0], parts[1]));
                    out.push_str("mod vp_missing {\n");
                }
                Err(e) => missing.push(e),
            },
            "assoc" => match sources.impls(parts[0], parts[1]) {
                Ok(v) => {
                    let name = parts[2].split_whitespace().next().unwrap_or("");
                    let (_, maps) = opts(parts.get(3).copied().unwrap_or(""));
                    let mut hit = false;
                    for i in v {
                        for x in &i.items {
                            if let ImplItem::Type(t) = x {
                                if t.ident == name && !hit {
                                    hit = true;
                                    let mut t = t.clone();
                                    t.attrs.clear();
                                    let ts = apply_maps(t.to_token_stream(), &maps, &mut nmap);
                                    out.push_str(&Printer::new(&[]).print(ts, indent));
                                    out.push('\n');
                                }
                            }
                        }
                    }
                    if !hit {
                        missing.push(format!("{}: type `{}` of `{}` not found", parts[0], name, parts[1]));
                    }
                }
                Err(e) => missing.push(e),
            },
            "fn" | "derive_default" => {
                let mut b = parse_block(&mut it);
                for m in maps {
                    b.maps.push(m);
                }
                let id0 = o.get("id").cloned().unwrap_or_else(|| default_id(parts[1]));
                let nid = uniq.entry(id0.clone()).or_default();
                *nid += 1;
                let id = if *nid > 1 { format!("{}#{}", id0, nid) } else { id0 };
                let taken;
                let stubs = if assumed > 0 {
                    taken = vec![id.clone()];
                    &taken[..]
                } else {
                    stubs
                };
                let found = if w == "derive_default" {
                    default_fn(sources, parts[0], parts[1])
                } else {
                    sources.find_fn(parts[0], parts[1])
                };
                match found {
                    Ok(f) => {
                        let start = out.lines().count() + 1;
                        let src_line = f.line;
                        let self_key = self_key_of(parts[1]);
                        let r = emit_fn(f, parts[0], self_key, &id, &o, b, &known, &refmut, &ghostarg, sources, stubs, vacuity, indent);
                        if assumed > 0 {
                            out.push_str(&r.0.replacen("external_body]\n", "external_body] // imported\n", 1));
                        } else {
                            out.push_str(&r.0);
                        }
                        let end = out.lines().count();
                        fns.push(format!(
                            "{{\"id\":{},\"file\":{},\"sel\":{},\"src_line\":{},\"start\":{},\"end\":{},\"props\":{},\"tags\":{},\"has_body\":{},\"stub\":{},\"imported\":{},{}}}",
                            json(&id),
                            json(parts[0]),
                            json(parts[1]),
                            src_line,
                            start,
                            end,
                            json(o.get("props").map(|s| s.as_str()).unwrap_or("")),
                            json(o.get("tag").map(|s| s.as_str()).unwrap_or("")),
                            r.2,
                            r.3,
                            assumed > 0,
                            r.1
                        ));
                    }
                    Err(e) => missing.push(e),
                }
            }
            "end" => {}
            x => missing.push(format!("template: unknown directive {x}")),
        }
    }
    let map = format!(
        "{{\"fns\":[\n{}\n],\n\"missing\":[{}],\n\"items\":[{}]}}\n",
        fns.join(",\n"),
        missing.iter().map(|m| json(m)).collect::<Vec<_>>().join(","),
        items.join(",")
    );
    Generated { text: out, map }
}

fn derive_line(d: &[String], o: &HashMap<String, String>) -> String {
    if o.contains_key("noderive") {
        return String::new();
    }
    let mut v: Vec<&str> = vec![];
    for x in d {
        match x.as_str() {
            "Copy" => v.push("Copy"),
            "Clone" => v.push("Clone"),
            "PartialEq" => {
                v.push("PartialEq");
                v.push("Structural");
            }
            "Eq" => v.push("Eq"),
            _ => {}
        }
    }
    if v.is_empty() {
        String::new()
    } else {
        format!("#[derive({})]\n", v.join(", "))
    }
}

fn default_id(sel: &str) -> String {
    sel.replace(" :: ", "::").replace(" / ", "/").replace("fn ", "")
}
fn self_key_of(sel: &str) -> Option<String> {
    let first = sel.split(" / ").next().unwrap();
    let (k, _) = first.rsplit_once(" :: ")?;
    let k = k.trim();
    if k.starts_with("trait ") {
        return None;
    }
    let k = k.split_once(" for ").map(|x| x.1).unwrap_or(k).trim();
    // identifier of the self type
    let k = k.trim_start_matches('&').trim_start_matches("mut ");
    Some(k.split('<').next().unwrap().trim().to_string())
}

/// `#[derive(Default)]` written out, or the explicit impl if there is one.
fn default_fn(sources: &mut Sources, file: &str, name: &str) -> std::result::Result<FnSrc, String> {
    match sources.find_item(file, name)? {
        Item::Struct(s) => {
            if derives(&s.attrs).iter().any(|d| d == "Default") {
                let body: Block = match &s.fields {
                    Fields::Named(n) => {
                        let f: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                        parse_quote!({ Self { #(#f: Default::default()),* } })
                    }
                    Fields::Unnamed(u) => {
                        let k = u.unnamed.iter().map(|_| quote!(Default::default()));
                        parse_quote!({ Self(#(#k),*) })
                    }
                    Fields::Unit => parse_quote!({ Self }),
                };
                return Ok(FnSrc { sig: parse_quote!(fn default() -> Self), block: Some(body), inherent: false, line: 0 });
            }
            let g = s.generics.split_for_impl().1.to_token_stream().to_string();
            sources.find_fn(file, &format!("Default for {}{} :: default", name, g))
        }
        _ => Err(format!("{file}: {name} is not a struct")),
    }
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    f: FnSrc,
    file: &str,
    self_key: Option<String>,
    id: &str,
    o: &HashMap<String, String>,
    b: Block_,
    known: &HashSet<String>,
    refmut: &HashSet<String>,
    ghostarg: &HashMap<String, String>,
    sources: &mut Sources,
    stubs: &[String],
    vacuity: bool,
    indent: usize,
) -> (String, String, bool, bool) {
    let mut ghost: Vec<String> = vec![];
    let mut sig = f.sig.clone();
    if let Some(n) = o.get("name") {
        sig.ident = quote::format_ident!("{}", n);
    }
    if o.get("self").map(|s| s == "mut").unwrap_or(false) {
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_some() {
                let lt = r.lifetime().cloned();
                *r = match lt {
                    Some(lt) => parse_quote!(&#lt mut self),
                    None => parse_quote!(&mut self),
                };
            }
        }
    }
    if let Some(p) = o.get("refmutparam") {
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                if t.pat.to_token_stream().to_string() == *p || p == "*" {
                    if let Type::Reference(r) = &mut *t.ty {
                        r.mutability = Some(Default::default());
                    }
                }
            }
        }
    }
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Typed(t) => {
                t.attrs.clear();
                // `mut x: T` is accepted by Verus as is
            }
            FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
    // parameter names for $1, $2..
    let params: Vec<String> = sig
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => Some(match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                Pat::Wild(_) => "_".into(),
                p => p.to_token_stream().to_string(),
            }),
            _ => None,
        })
        .collect();
    let sub = |s: &str| {
        let mut s = s.to_string();
        for (i, p) in params.iter().enumerate().rev() {
            s = s.replace(&format!("${}", i + 1), p);
        }
        s
    };
    let mut pre: Vec<Stmt> = vec![];
    // `mut self` by value: a mutable local takes its place in the body
    let mut byvalue_mut = false;
    if f.block.is_some() {
        if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                byvalue_mut = true;
                pre.push(parse_quote!(let mut vp_self = vp_self_param;));
            }
        }
    }
    // a pattern parameter cannot be named in a contract: give it a name and destructure
    let mut rename: Vec<(String, String)> = vec![];
    {
        let mut k: usize = 0;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = a {
                k += 1;
                if !matches!(&*t.pat, Pat::Ident(_)) {
                    let n = quote::format_ident!("vp_p{}", k);
                    let p = (*t.pat).clone();
                    if !matches!(p, Pat::Wild(_)) {
                        pre.push(parse_quote!(let #p = #n;));
                    }
                    rename.push((format!("${}", k), n.to_string()));
                    *t.pat = parse_quote!(#n);
                }
            }
        }
    }
    // the ghost log of the atomic steps of the function
    let logged = o.contains_key("log");
    if logged {
        sig.inputs.push(parse_quote!(Tracked(vp_l): Tracked<&mut VpLog>));
    }
    let none = HashMap::new();
    let ghostarg = if logged { ghostarg } else { &none };
    let sub = |s: &str| {
        let mut s = s.to_string();
        for (a, b) in &rename {
            s = s.replace(a, b);
        }
        sub(&s)
    };
    let mut b = b;
    for m in b.maps.iter_mut() {
        *m = (sub(&m.0), sub(&m.1));
    }
    let stub = stubs.iter().any(|s| s == id);
    let has_body = f.block.is_some() && !o.contains_key("nobody");
    let mut nmap = 0;
    let mut lost: Vec<String> = vec![];
    let lost_names: std::cell::RefCell<Vec<String>> = Default::default();
    let mut block = f.block.clone();
    let mut tx = Tx::new(sources, file, known, refmut, ghostarg, &mut ghost);
    tx.self_key = self_key;
    tx.fn_name = id.to_string();
    tx.expect_strict = o.get("expect").map(|s| s == "strict").unwrap_or(false);
    tx.vacuity = vacuity && !stub && !o.contains_key("novac");
    tx.panic_if = b.panic_if.as_ref().map(|s| sub(s));
    tx.mutself = sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(r) if r.mutability.is_some()));
    tx.dyncall = o.contains_key("dyncall");
    if let Some(l) = o.get("logname") {
        tx.logname = l.split('/').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    }
    tx.itermap = o.contains_key("itermap");
    // `$cp2`: the second parameter of the first closure; `$bound(f)`: the variable whose initial value is got by calling `f`
    let sub = |s: &str| {
        let mut s = sub(s);
        for (k, p) in first_closure(f.block.as_ref()).iter().enumerate() {
            s = s.replace(&format!("$cp{}", k + 1), p);
        }
        while let Some(i) = s.find("$bound(") {
            let j = i + s[i..].find(')').unwrap();
            let n = s[i + 7..j].to_string();
            let v = bound_by(f.block.as_ref(), &n);
            if v.is_none() {
                lost_names.borrow_mut().push(json(&format!("{} (no variable bound to a result of {n})", id)));
            }
            s.replace_range(i..=j, &v.unwrap_or_else(|| "vp_lost".into()));
        }
        s
    };
    for (k, l) in &b.closures {
        tx.closures.insert(*k, sub(l));
    }
    // a parameter the body binds again: ghost text inside the body means the parameter
    let mut rebound: Vec<(String, String)> = vec![];
    if let (Some(bl), true) = (&block, has_body) {
        for a in sig.inputs.iter() {
            if let FnArg::Typed(t) = a {
                if let Pat::Ident(i) = &*t.pat {
                    if i.mutability.is_none() && !matches!(&*t.ty, Type::Reference(_)) && binds(bl, &i.ident.to_string()) {
                        rebound.push((i.ident.to_string(), format!("vp_g_{}", i.ident)));
                    }
                }
            }
        }
    }
    let outer = |s: &str| sub(s);
    let sub = |s: &str| {
        let mut s = outer(s);
        for (a, b) in &rebound {
            s = replace_word(&s, a, b);
        }
        s
    };
    for (k, l) in &b.loops {
        tx.loops.insert(
            *k,
            LoopSpec { inv: sub(&l.inv), ens: sub(&l.ens), dec: sub(&l.dec), top: sub(&l.top), end: sub(&l.end), before: sub(&l.before) },
        );
    }
    if let (Some(bl), true) = (&mut block, has_body) {
        tx.block(bl);
        // the coercion of the result is written out as a call
        if let (Some(w), Some(Stmt::Expr(e, None))) = (o.get("wraptail"), bl.stmts.last_mut()) {
            let w = quote::format_ident!("{}", w);
            *e = parse_quote!(#w(#e));
        }
        let mut stmts: Vec<Stmt> = vec![];
        if let Some(v) = tx.vac("entry") {
            stmts.push(v);
        }
        if !b.entry.trim().is_empty() {
            let e = outer(&b.entry);
            stmts.push(tx.ghost_stmt(&e));
        }
        stmts.extend(pre);
        for (a, b) in &rebound {
            stmts.push(tx.ghost_stmt(&format!("let ghost {b} = {a};\n")));
        }
        let leaves = matches!(bl.stmts.last(), Some(Stmt::Expr(Expr::Loop(_) | Expr::Return(_), _)));
        let vt = if o.contains_key("novactail") || leaves { None } else { tx.vac("tail") };
        if !b.tail.trim().is_empty() || vt.is_some() {
            let mut after: Vec<Stmt> = vec![];
            if !b.tail.trim().is_empty() {
                let e = outer(&b.tail);
                after.push(tx.ghost_stmt(&e));
            }
            after.extend(vt);
            let r = if b.ret.is_empty() { "vp_ret".to_string() } else { b.ret.clone() };
            let r = quote::format_ident!("{}", r);
            let unit = matches!(sig.output, ReturnType::Default);
            if !b.tail.trim().is_empty() {
                // the same ghost text before every early return
                let e = sub(&b.tail);
                let ghosts: Vec<Stmt> = vec![tx.ghost_stmt(&e)];
                let ty = match &sig.output {
                    ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl ") => Some((**t).clone()),
                    _ => None,
                };
                let mut er = EarlyReturn { ghosts, r: r.clone(), ty };
                er.visit_block_mut(bl);
            }
            if unit {
                if let Some(Stmt::Expr(_, semi)) = bl.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                let inner = bl.clone();
                stmts.push(Stmt::Expr(parse_quote!(#inner), Some(Default::default())));
                stmts.extend(after);
            } else {
                let inner = bl.clone();
                let inner = if inner.stmts.len() == 1 {
                    match &inner.stmts[0] {
                        Stmt::Expr(e, None) => e.clone(),
                        _ => parse_quote!(#inner),
                    }
                } else {
                    parse_quote!(#inner)
                };
                let ty = match &sig.output {
                    ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl ") => Some(t.clone()),
                    _ => None,
                };
                match ty {
                    Some(t) => stmts.push(parse_quote!(let #r: #t = #inner;)),
                    None => stmts.push(parse_quote!(let #r = #inner;)),
                }
                stmts.extend(after);
                stmts.push(Stmt::Expr(parse_quote!(#r), None));
            }
            bl.stmts = stmts;
        } else {
            stmts.extend(std::mem::take(&mut bl.stmts));
            bl.stmts = stmts;
        }
    }
    let counts: BTreeMap<String, usize> = tx.counts.clone();
    lost.extend(lost_names.take());
    let inlined = tx.inlined.clone();
    let kinds = tx.loop_kinds.clone();
    let bare = tx.bare_closures;

    // calls itself, and the contract gives no measure: proved as far as it returns
    let recursive = has_body && !b.spec.contains("decreases") && f.block.as_ref().map_or(false, |b| calls_itself(b, &f.sig.ident.to_string(), f.sig.receiver().is_some()));

    // signature
    let mut head = sig.clone();
    let wh = head.generics.where_clause.take();
    let out_ty = std::mem::replace(&mut head.output, ReturnType::Default);
    let mut s = String::new();
    let pad = "    ".repeat(indent);
    if stub {
        s.push_str(&format!("{pad}#[verifier::external_body]\n"));
    }
    if has_body && !stub {
        if let Some(a) = o.get("attr") {
            s.push_str(&format!("{pad}#[{}]\n", a));
        }
        if recursive && !o.contains_key("attr") {
            s.push_str(&format!("{pad}#[verifier::exec_allows_no_decreases_clause]\n"));
        }
        s.push_str(&format!("{pad}#[verifier::loop_isolation(false)]\n"));
    }
    let vis = if f.inherent && !o.contains_key("nopub") { "pub " } else { "" };
    let hts = apply_maps(head.to_token_stream(), &b.maps, &mut nmap);
    let mut h = Printer::new(&[]).print(hts, indent);
    while h.ends_with(char::is_whitespace) {
        h.pop();
    }
    if let Some(g) = o.get("ghostparam") {
        // inserted before the closing parenthesis of the parameter list
        let g = g.replace('~', " ");
        let i = h.rfind(')').unwrap();
        let inner = h[..i].trim_end().to_string();
        let sep = if inner.ends_with('(') || inner.ends_with(',') { "" } else { ", " };
        h = format!("{inner}{sep}{g})");
    }
    let h = format!("{}{}{}", pad, vis, h.trim_start());
    s.push_str(&h);
    match &out_ty {
        ReturnType::Default => {}
        ReturnType::Type(_, t) => {
            let ts = apply_maps(t.to_token_stream(), &b.maps, &mut nmap);
            let t = Printer::new(&[]).print(ts, 0);
            if b.ret.is_empty() {
                s.push_str(&format!(" -> {}", t.trim()));
            } else {
                s.push_str(&format!(" -> ({}: {})", b.ret, t.trim()));
            }
        }
    }
    if let Some(w) = wh {
        let ts = apply_maps(w.to_token_stream(), &b.maps, &mut nmap);
        let w = Printer::new(&[]).print(ts, 0);
        s.push_str(&format!("\n{pad}{}", w.trim()));
    }
    s.push('\n');
    s.push_str(&outer(&b.spec));
    if has_body {
        if stub {
            s.push_str(&format!("{pad}{{ unimplemented!() }}\n"));
        } else {
            let mut body = block.unwrap().to_token_stream();
            if byvalue_mut {
                body = remap(body, &toks("self"), &toks("vp_self"), &mut 0);
                body = remap(body, &toks("vp_self_param"), &toks("self"), &mut 0);
            }
            for (a, b) in b.maps.iter().filter(|m| m.0.starts_with('\u{1}')) {
                let mut k = 0;
                apply_maps(body.clone(), &[(a.clone(), b.clone())], &mut k);
                if k == 0 {
                    lost.push(json(a.trim_start_matches('\u{1}')));
                }
            }
            let ts = apply_maps(body, &b.maps, &mut nmap);
            s.push_str(&Printer::new(&ghost).print(ts, indent));
            if !s.ends_with('\n') {
                s.push('\n');
            }
        }
    } else {
        while s.ends_with(char::is_whitespace) {
            s.pop();
        }
        s.push_str(";\n");
    }
    let mut c = counts;
    if nmap > 0 {
        c.insert("type-map".into(), nmap);
    }
    let cj = c.iter().map(|(k, v)| format!("{}:{}", json(k), v)).collect::<Vec<_>>().join(",");
    let j = format!(
        "\"rules\":{{{}}},\"lost\":[{}],\"inlined\":[{}],\"loops\":[{}],\"closures\":{},\"recursive\":{}",
        cj,
        lost.join(","),
        inlined.iter().map(|x| json(x)).collect::<Vec<_>>().join(","),
        kinds.iter().map(|x| json(x)).collect::<Vec<_>>().join(","),
        bare,
        recursive
    );
    (s, j, has_body, stub)
}

fn calls_itself(b: &Block, name: &str, method: bool) -> bool {
    struct V<'a>(&'a str, bool, bool);
    impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::MethodCall(m) => self.1 |= m.method == self.0 && m.receiver.to_token_stream().to_string() == "self",
                Expr::Call(c) => {
                    let t = c.func.to_token_stream().to_string();
                    self.1 |= (t == self.0 && !self.2) || t == format!("Self :: {}", self.0);
                }
                _ => {}
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V(name, false, method);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}
/// does a pattern in the block bind this name
fn binds(b: &Block, name: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> {
        fn visit_item(&mut self, _: &'ast Item) {}
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.1 |= p.ident == self.0;
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(name, false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}
fn replace_word(s: &str, a: &str, b: &str) -> String {
    let mut r = String::new();
    let mut w = String::new();
    for c in s.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' || c == '$' {
            w.push(c);
        } else {
            let field = r.ends_with('.') && !r.ends_with("..");
            r.push_str(if w == a && !field { b } else { &w });
            w.clear();
            r.push(c);
        }
    }
    r.pop();
    r
}

struct EarlyReturn {
    ghosts: Vec<Stmt>,
    r: Ident,
    ty: Option<Type>,
}
impl VisitMut for EarlyReturn {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(x) = e {
            let g = &self.ghosts;
            let r = &self.r;
            *e = match (&x.expr, &self.ty) {
                (Some(v), Some(t)) => parse_quote!({ let #r: #t = #v; #(#g)* return #r; }),
                (Some(v), None) => parse_quote!({ let #r = #v; #(#g)* return #r; }),
                (None, _) => parse_quote!({ #(#g)* return; }),
            };
        }
    }
}

fn bound_by(b: Option<&Block>, name: &str) -> Option<String> {
    struct V<'a>(&'a str, Option<String>);
    impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> {
        fn visit_local(&mut self, l: &'ast Local) {
            if let (Some(i), Pat::Ident(p)) = (&l.init, match &l.pat {
                Pat::Type(t) => &*t.pat,
                p => p,
            }) {
                let t = i.expr.to_token_stream().to_string();
                if self.1.is_none() && t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == self.0) {
                    self.1 = Some(p.ident.to_string());
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut v = V(name, None);
    syn::visit::Visit::visit_block(&mut v, b?);
    v.1
}

fn first_closure(b: Option<&Block>) -> Vec<String> {
    struct V(Option<Vec<String>>);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
            self.0.get_or_insert_with(|| {
                c.inputs
                    .iter()
                    .map(|p| match p {
                        Pat::Type(t) => t.pat.to_token_stream().to_string(),
                        p => p.to_token_stream().to_string(),
                    })
                    .collect()
            });
        }
    }
    let mut v = V(None);
    if let Some(b) = b {
        syn::visit::Visit::visit_block(&mut v, b);
    }
    v.0.unwrap_or_default()
}
