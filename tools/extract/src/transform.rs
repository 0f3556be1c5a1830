//! The rewriting rules. Every use is counted under the rule's name.
use crate::source::{FnSrc, Sources};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct LoopSpec {
    pub inv: String,
    pub ens: String,
    pub dec: String,
    pub top: String,
    pub end: String,
    pub before: String,
}

pub struct Tx<'a> {
    pub sources: &'a mut Sources,
    pub file: String,
    pub self_key: Option<String>,
    pub fn_name: String,
    pub known: &'a HashSet<String>,
    pub refmut: &'a HashSet<String>,
    pub ghostarg: &'a HashMap<String, String>,
    pub loops: HashMap<usize, LoopSpec>,
    pub ghost: &'a mut Vec<String>,
    pub counts: BTreeMap<String, usize>,
    pub inlined: Vec<String>,
    pub loop_kinds: Vec<String>,
    /// calls of function values are printed `f.vp_call(..)`, their `&self.x` as `&mut self.x`
    pub dyncall: bool,
    /// names that calls with a ghost argument get
    pub logname: HashMap<String, String>,
    /// closures left without a contract
    pub bare_closures: usize,
    pub expect_strict: bool,
    pub vacuity: bool,
    pub n: usize,
    pub panic_if: Option<String>,
    pub mutself: bool,
    pub itermap: bool,
    pub closures: HashMap<usize, String>,
    nclosure: usize,
    depth: usize,
}

struct HasJump {
    ret: bool,
    brk: bool,
    depth: usize,
}
impl<'ast> Visit<'ast> for HasJump {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) {}
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'ast ExprTry) {
        self.ret = true;
        visit::visit_expr_try(self, e);
    }
    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
        if self.depth == 0 || b.label.is_some() {
            self.brk = true;
        }
    }
    fn visit_expr_loop(&mut self, e: &'ast ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, e);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, e: &'ast ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, e);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, e: &'ast ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, e);
        self.depth -= 1;
    }
}
fn jumps_e(e: &Expr) -> HasJump {
    let mut h = HasJump { ret: false, brk: false, depth: 0 };
    h.visit_expr(e);
    h
}
fn jumps_b(e: &Block) -> HasJump {
    let mut h = HasJump { ret: false, brk: false, depth: 0 };
    h.visit_block(e);
    h
}

fn pe(s: proc_macro2::TokenStream) -> Expr {
    let t = s.to_string();
    parse2(s).unwrap_or_else(|e| panic!("internal: cannot parse `{t}`: {e}"))
}

const ITER_METHODS: &[&str] = &[
    "iter", "iter_mut", "into_iter", "filter", "map_iter", "drain", "keys", "values", "values_mut", "chain", "zip",
    "vp_iter", "vp_into_iter", "enumerate", "rev", "cloned", "intersection", "union", "difference", "skip", "take_while", "filter_map", "copied_iter",
];

fn is_iter_expr(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ITER_METHODS.contains(&n.as_str()) || n == "take" && m.args.len() == 1 || (n == "map" || n == "cloned" || n == "copied") && is_iter_expr(&m.receiver)
        }
        Expr::Paren(p) => is_iter_expr(&p.expr),
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            f.ends_with("iter::once") || f.ends_with("iter::empty")
        }
        _ => false,
    }
}

fn strip_pat(p: &Pat) -> Pat {
    match p {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

/// closure with `k` parameters whose body may be put in place
fn closure(e: &Expr, k: usize) -> Option<(Vec<Pat>, Expr)> {
    let (mut p, mut b) = closure_raw(e, k)?;
    if let [Pat::Reference(q)] = &p[..] {
        // `|&x| b` is `|vp_q| { let x = *vp_q; b }`
        let q = &q.pat;
        b = pe(quote!({ let #q = *vp_q; #b }));
        p = vec![parse_quote!(vp_q)];
    }
    Some((p, b))
}
fn closure_raw(e: &Expr, k: usize) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == k && !jumps_e(&c.body).ret {
            return Some((c.inputs.iter().map(strip_pat).collect(), (*c.body).clone()));
        }
    }
    None
}

impl<'a> Tx<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        sources: &'a mut Sources,
        file: &str,
        known: &'a HashSet<String>,
        refmut: &'a HashSet<String>,
        ghostarg: &'a HashMap<String, String>,
        ghost: &'a mut Vec<String>,
    ) -> Self {
        Tx {
            sources,
            file: file.to_string(),
            self_key: None,
            fn_name: String::new(),
            known,
            refmut,
            ghostarg,
            loops: HashMap::new(),
            ghost,
            counts: BTreeMap::new(),
            inlined: vec![],
            loop_kinds: vec![],
            bare_closures: 0,
            dyncall: false,
            logname: HashMap::new(),
            expect_strict: false,
            vacuity: false,
            n: 0,
            panic_if: None,
            mutself: false,
            itermap: false,
            closures: HashMap::new(),
            nclosure: 0,
            depth: 0,
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    fn fresh(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("vp_{}{}", s, self.n)
    }
    pub fn ghost_stmt(&mut self, text: &str) -> Stmt {
        let t = text.trim_start();
        if t.starts_with("let ghost") || t.starts_with("proof") || t.starts_with("let tracked") {
            self.ghost.push(text.to_string());
        } else {
            self.ghost.push(format!("proof {{\n{}}}\n", text));
        }
        let k = proc_macro2::Literal::usize_unsuffixed(self.ghost.len() - 1);
        parse2(quote!(vp_ghost!{#k};)).unwrap()
    }
    fn inv_stmt(&mut self, text: &str) -> Stmt {
        self.ghost.push(text.to_string());
        let k = proc_macro2::Literal::usize_unsuffixed(self.ghost.len() - 1);
        parse2(quote!(vp_inv!{#k};)).unwrap()
    }
    pub fn vac(&mut self, what: &str) -> Option<Stmt> {
        if self.vacuity {
            let t = format!("if vp_nondet() {{ assert(false); /*VAC {} {}*/ }}", self.fn_name, what);
            self.ghost.push(t);
            let k = proc_macro2::Literal::usize_unsuffixed(self.ghost.len() - 1);
            Some(parse2(quote!(vp_ghost!{#k};)).unwrap())
        } else {
            None
        }
    }

    // ---------------------------------------------------------------- inlining of local helpers
    pub fn inline_block(&mut self, b: &mut Block) {
        struct V<'b, 'a>(&'b mut Tx<'a>);
        impl<'b, 'a> VisitMut for V<'b, 'a> {
            fn visit_item_mut(&mut self, _: &mut Item) {}
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Some(x) = self.0.try_inline(e) {
                    *e = x;
                }
            }
        }
        V(self).visit_block_mut(b);
    }
    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        let (name, recv, args): (String, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()),
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.qself.is_none() => &p.path,
                    _ => return None,
                };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 1 {
                    (segs[0].clone(), None, c.args.iter().cloned().collect())
                } else if segs.len() == 2 && (segs[0] == "Self" || Some(&segs[0]) == self.self_key.as_ref()) {
                    (segs[1].clone(), Some(Expr::Path(parse_quote!(Self))), c.args.iter().cloned().collect())
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        if self.known.contains(&name) || self.depth > 4 {
            return None;
        }
        let self_key = self.self_key.clone();
        let f: FnSrc = match (&recv, &self_key) {
            (None, _) => self.sources.find_helper(&self.file.clone(), None, &name)?,
            (Some(_), Some(k)) => self.sources.find_helper(&self.file.clone(), Some(k), &name)?,
            _ => return None,
        };
        let has_self = f.sig.receiver().is_some();
        let mut body = f.block.clone()?;
        if !body.stmts.iter().all(|s| !matches!(s, Stmt::Item(_))) {
            return None;
        }
        eliminate_returns(&mut body);
        if jumps_b(&body).ret {
            return None;
        }
        let mut args = args;
        let mut lets: Vec<Stmt> = vec![];
        let mut subst_self: Option<Ident> = None;
        if has_self {
            let r = match recv? {
                Expr::Path(p) if p.path.is_ident("Self") => {
                    if args.is_empty() {
                        return None;
                    }
                    args.remove(0)
                }
                r => r,
            };
            let is_self = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                let id = self.fresh("self");
                let rc = f.sig.receiver().unwrap();
                let init: Expr = if rc.reference.is_none() || matches!(r, Expr::Reference(_)) {
                    r
                } else if rc.mutability.is_some() {
                    parse_quote!(&mut #r)
                } else {
                    parse_quote!(&#r)
                };
                lets.push(parse_quote!(let #id = #init;));
                subst_self = Some(id);
            }
        }
        let params: Vec<(Pat, Type)> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(((*t.pat).clone(), (*t.ty).clone())),
                _ => None,
            })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        let generic: Vec<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut second: Vec<Stmt> = vec![];
        for ((p, t), a) in params.into_iter().zip(args) {
            let id = self.fresh("a");
            let ts = t.to_token_stream().to_string();
            let opaque = ts.contains("impl ") || ts.contains('\'') || generic.iter().any(|g| ts.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == g));
            if opaque {
                lets.push(parse_quote!(let #id = #a;));
            } else {
                lets.push(parse_quote!(let #id: #t = #a;));
            }
            second.push(parse_quote!(let #p = #id;));
        }
        lets.extend(second);
        if let Some(id) = subst_self {
            struct S(Ident);
            impl VisitMut for S {
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if p.path.is_ident("self") {
                        let id = &self.0;
                        *p = parse_quote!(#id);
                    }
                }
            }
            S(id).visit_block_mut(&mut body);
        }
        self.depth += 1;
        self.inline_block(&mut body);
        self.depth -= 1;
        self.inlined.push(name);
        self.count("inline-helper");
        lets.extend(body.stmts);
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: lets } }))
    }

    // ---------------------------------------------------------------- main pass
    pub fn block(&mut self, b: &mut Block) {
        self.inline_block(b);
        self.visit_block_mut(b);
    }

    fn loop_spec(&mut self, kind: &str) -> (usize, LoopSpec) {
        let k = self.loop_kinds.len();
        self.loop_kinds.push(kind.to_string());
        (k, self.loops.get(&k).cloned().unwrap_or_default())
    }

    fn weave(&mut self, spec: &LoopSpec, k: usize, autoinv: &str, autoens: &str, autodec: &str, it: &str, all: &str, pos: &str, body: &mut Block) {
        let muts = assigned(body);
        // a line with `$mut` speaks about every variable from outside that the loop assigns
        let sub = |s: &str| {
            let mut o = String::new();
            for l in s.lines() {
                if l.contains("$mut") {
                    for m in &muts {
                        o.push_str(&l.replace("$mut", m));
                        o.push('\n');
                    }
                } else {
                    o.push_str(l);
                    o.push('\n');
                }
            }
            o.replace("$it", it).replace("$all", all).replace("$i", pos)
        };
        let mut t = String::new();
        let inv = format!("{}{}", autoinv, sub(&spec.inv));
        if !inv.trim().is_empty() {
            t.push_str(&format!("invariant\n{}\n", inv));
        }
        let ens = format!("{}{}", autoens, sub(&spec.ens));
        if !ens.trim().is_empty() {
            t.push_str(&format!("ensures\n{}\n", ens));
        }
        let dec = if spec.dec.trim().is_empty() { autodec.to_string() } else { sub(&spec.dec) };
        if !dec.trim().is_empty() {
            t.push_str(&format!("decreases {}\n", dec));
        }
        let inv = self.inv_stmt(&t);
        let mut pre = vec![inv];
        if let Some(v) = self.vac(&format!("loop{k}")) {
            pre.push(v);
        }
        if !spec.top.trim().is_empty() {
            pre.push(self.ghost_stmt(&sub(&spec.top)));
        }
        pre.extend(std::mem::take(&mut body.stmts));
        if !spec.end.trim().is_empty() {
            // the last statement of a loop body has unit type
            if let Some(Stmt::Expr(e, semi)) = pre.last_mut() {
                let _ = e;
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            pre.push(self.ghost_stmt(&sub(&spec.end)));
        }
        body.stmts = pre;
    }

    fn tx_for(&mut self, f: ExprForLoop) -> Expr {
        let (k, spec) = self.loop_spec("for");
        self.count("for-loop");
        let mut pat = (*f.pat).clone();
        let label = f.label.clone();
        let mut body = f.body.clone();
        if let Pat::Reference(q) = &pat {
            let q = q.pat.clone();
            body.stmts.insert(0, parse_quote!(let #q = *vp_q;));
            pat = parse_quote!(vp_q);
        }
        let mut src = (*f.expr).clone();
        // `for s in &mut V`: index loop
        if let Expr::Reference(r) = &src {
            if r.mutability.is_some() {
                let v = (*r.expr).clone();
                return self.mut_index_loop(k, spec, v, pat, label, body);
            }
        }
        if let Expr::MethodCall(m) = &src {
            if m.method == "iter_mut" && m.args.is_empty() {
                let v = (*m.receiver).clone();
                return self.mut_index_loop(k, spec, v, pat, label, body);
            }
        }
        self.visit_expr_mut(&mut src);
        if let Expr::Range(r) = &src {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                self.visit_block_mut(&mut body);
                let i = format_ident!("vp_i{}", k);
                let e = format_ident!("vp_e{}", k);
                let s = format_ident!("vp_s{}", k);
                let mut stmts: Vec<Stmt> = vec![parse_quote!(let #pat = #i;), parse_quote!(#i = #i + 1;)];
                stmts.extend(body.stmts);
                body.stmts = stmts;
                self.weave(
                    &spec,
                    k,
                    &format!("vp_s{k} <= vp_i{k}, vp_i{k} <= vp_e{k} || vp_i{k} == vp_s{k},\n"),
                    "",
                    &format!("vp_e{k} - vp_i{k}"),
                    &format!("vp_i{k}"),
                    &format!("vp_i{k}"),
                    &format!("vp_i{k}"),
                    &mut body,
                );
                let g = self.ghost_stmt(&format!("let ghost vp_s{k} = vp_i{k};"));
                let _ = s;
                return pe(quote!({ let mut #i = #a; let #e = #b; #g #label while #i < #e #body }));
            }
        }
        let own_break = jumps_b(&body).brk;
        self.visit_block_mut(&mut body);
        let it = format_ident!("vp_it{}", k);
        let bs = &body.stmts;
        let mut lb: Block = parse_quote!({ let #pat = #it.vp_next(); #(#bs)* });
        let autoinv = format!("vp_it{k}.all() == vp_all{k}, 0 <= vp_it{k}.pos() <= vp_all{k}.len(),\n");
        let autoens = String::new();
        let _ = own_break;
        self.weave(
            &spec,
            k,
            &autoinv,
            &autoens,
            &format!("vp_all{k}.len() - vp_it{k}.pos()"),
            &format!("vp_it{k}"),
            &format!("vp_all{k}"),
            &format!("vp_it{k}.pos()"),
            &mut lb,
        );
        let g = self.ghost_stmt(&format!("let ghost vp_all{k} = vp_it{k}.all(); {}", spec.before.replace("$all", &format!("vp_all{k}"))));
        pe(quote!({ let mut #it = (#src).vp_into_iter(); #g #label while #it.vp_has_next() #lb }))
    }

    fn mut_index_loop(&mut self, k: usize, spec: LoopSpec, mut v: Expr, pat: Pat, label: Option<Label>, mut body: Block) -> Expr {
        self.visit_expr_mut(&mut v);
        self.visit_block_mut(&mut body);
        let i = format_ident!("vp_i{}", k);
        let mut stmts: Vec<Stmt> = vec![parse_quote!(let #pat = &mut #v[#i];), parse_quote!(#i = #i + 1;)];
        stmts.extend(body.stmts);
        body.stmts = stmts;
        let vs = v.to_token_stream().to_string();
        self.weave(
            &spec,
            k,
            &format!("vp_i{k} <= {vs}.len(),\n"),
            "",
            &format!("{vs}.len() - vp_i{k}"),
            &format!("vp_i{k}"),
            &vs,
            &format!("vp_i{k}"),
            &mut body,
        );
        pe(quote!({ let mut #i: usize = 0; #label while #i < #v.len() #body }))
    }

    fn tx_while(&mut self, mut w: ExprWhile) -> Expr {
        if let Expr::Let(l) = &*w.cond {
            let (k, spec) = self.loop_spec("while-let");
            self.count("while-let");
            let pat = (*l.pat).clone();
            let mut src = (*l.expr).clone();
            let it = match &src {
                Expr::MethodCall(m) if m.method == "next" => m.receiver.to_token_stream().to_string(),
                e => e.to_token_stream().to_string(),
            };
            let it = it.replace(". as_mut () . unwrap ()", "->0").replace(". as_mut ().unwrap ()", "->0").replace(". as_ref () . unwrap ()", "->0");
            let own_break = jumps_b(&w.body).brk;
            self.visit_expr_mut(&mut src);
            let mut body = w.body.clone();
            self.visit_block_mut(&mut body);
            let label = w.label.clone();
            let _ = own_break;
            if let (Expr::MethodCall(m), Pat::TupleStruct(ts)) = (&src, &pat) {
                if m.method == "next" && m.args.is_empty() && ts.elems.len() == 1 {
                    let r = &m.receiver;
                    let p = &ts.elems[0];
                    let bs = &body.stmts;
                    let mut lb: Block = parse_quote!({ let #p = #r.vp_next(); #(#bs)* });
                    let dec = format!("{it}.all().len() - {it}.pos()");
                    self.weave(&spec, k, "", "", &dec, &it, &format!("{it}.all()"), &format!("{it}.pos()"), &mut lb);
                    return pe(quote!(#label while #r.vp_has_next() #lb));
                }
            }
            let mut lb: Block = parse_quote!({ match #src { #pat => #body, _ => { break; } } });
            self.weave(&spec, k, "", "", "", &it, &format!("{it}.all()"), &format!("{it}.pos()"), &mut lb);
            return pe(quote!(#label loop #lb));
        }
        let (k, spec) = self.loop_spec("while");
        self.visit_expr_mut(&mut w.cond);
        self.visit_block_mut(&mut w.body);
        let mut body = w.body.clone();
        self.weave(&spec, k, "", "", "", "", "", "", &mut body);
        w.body = body;
        Expr::While(w)
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args?;
                let c = a.first()?.clone();
                if let Some(p) = self.panic_if.clone() {
                    self.count("documented-panic");
                    let g = self.ghost_stmt(&format!("assert({p});"));
                    return Some(pe(quote!(if !(#c) { #g vp_diverge() })));
                }
                self.count("assert-as-obligation");
                Some(pe(quote!(vp_assert(#c))))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args?;
                let (x, y) = (a.first()?.clone(), a.iter().nth(1)?.clone());
                self.count("assert-as-obligation");
                Some(pe(quote!(vp_assert(#x == #y))))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a = args?;
                let (x, y) = (a.first()?.clone(), a.iter().nth(1)?.clone());
                self.count("assert-as-obligation");
                Some(pe(quote!(vp_assert(#x != #y))))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                if name == "panic" {
                    if let Some(c) = self.panic_if.clone() {
                        self.count("documented-panic");
                        let g = self.ghost_stmt(&format!("assert({c});"));
                        return Some(pe(quote!({ #g vp_diverge() })));
                    }
                }
                self.count("panic-as-obligation");
                Some(pe(quote!(vp_panic())))
            }
            "vec" => {
                let a = args?;
                self.count("vec-macro");
                let v = self.fresh("v");
                let pushes: Vec<Stmt> = a.iter().map(|x| parse_quote!(#v.push(#x);)).collect();
                Some(pe(quote!({ let mut #v = Vec::new(); #(#pushes)* #v })))
            }
            "matches" => {
                let s = m.tokens.to_string();
                let (e, p) = s.split_once(',')?;
                let e: Expr = parse_str(e).ok()?;
                let p: proc_macro2::TokenStream = p.parse().ok()?;
                self.count("matches-macro");
                Some(pe(quote!(match #e { #p => true, _ => false })))
            }
            _ => None,
        }
    }

    /// call of a function value with one argument
    fn apply(&mut self, f: &Expr, arg: proc_macro2::TokenStream) -> Option<Expr> {
        match f {
            Expr::Path(_) => Some(pe(quote!(#f(#arg)))),
            _ => None,
        }
    }

    fn tx_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let a: Vec<&Expr> = m.args.iter().collect();
        let iter = is_iter_expr(r) || self.itermap;
        match (name.as_str(), a.len()) {
            ("join", 2) => {
                if let (Some((_, x)), Some((_, y))) = (closure(a[0], 0), closure(a[1], 0)) {
                    self.count("pool-join-contract");
                    return Some(pe(quote!({ let vp_ja = #x; let vp_jb = #y; (vp_ja, vp_jb) })));
                }
                None
            }
            ("map", 1) if !iter => {
                let v = self.fresh("o");
                let (p, body) = match closure(a[0], 1) {
                    Some((p, b)) => (p[0].to_token_stream(), b),
                    None => (quote!(#v), self.apply(a[0], quote!(#v))?),
                };
                self.count("option-map");
                Some(pe(quote!(match #r { Some(#p) => Some(#body), None => None })))
            }
            ("and_then", 1) if !iter => {
                let v = self.fresh("o");
                let (p, body) = match closure(a[0], 1) {
                    Some((p, b)) => (p[0].to_token_stream(), b),
                    None => (quote!(#v), self.apply(a[0], quote!(#v))?),
                };
                self.count("option-and_then");
                Some(pe(quote!(match #r { Some(#p) => #body, None => None })))
            }
            ("map_or", 2) if !iter => {
                let v = self.fresh("o");
                let d = a[0];
                let (p, body) = match closure(a[1], 1) {
                    Some((p, b)) => (p[0].to_token_stream(), b),
                    None => (quote!(#v), self.apply(a[1], quote!(#v))?),
                };
                self.count("option-map_or");
                Some(pe(quote!(match #r { Some(#p) => #body, None => #d })))
            }
            ("map_or_else", 2) if !iter => {
                let (_, d) = closure(a[0], 0)?;
                let (p, body) = closure(a[1], 1)?;
                let p = &p[0];
                self.count("option-map_or");
                Some(pe(quote!(match #r { Some(#p) => #body, None => #d })))
            }
            ("is_some_and", 1) => {
                let (p, body) = closure(a[0], 1)?;
                let p = &p[0];
                self.count("option-map_or");
                Some(pe(quote!(match #r { Some(#p) => #body, None => false })))
            }
            ("ok_or_else", 1) => {
                let (_, d) = closure(a[0], 0)?;
                self.count("option-ok_or");
                Some(pe(quote!(match #r { Some(vp_x) => Ok(vp_x), None => Err(#d) })))
            }
            ("filter", 1) if !iter => {
                let v = self.fresh("o");
                let (p, body) = closure_raw(a[0], 1)?;
                let p = &p[0];
                self.count("option-filter");
                let bind = match p {
                    Pat::Reference(q) => {
                        let q = &q.pat;
                        quote!(let #q = #v;)
                    }
                    p => quote!(let #p = &#v;),
                };
                Some(pe(quote!(match #r { Some(#v) => { let vp_keep = { #bind #body }; if vp_keep { Some(#v) } else { None } } None => None })))
            }
            ("or_else", 1) if !iter => {
                let (_, d) = closure(a[0], 0)?;
                self.count("option-or_else");
                Some(pe(quote!(match #r { Some(vp_x) => Some(vp_x), None => #d })))
            }
            ("unwrap_or_else", 1) => {
                let body = match closure(a[0], 0) {
                    Some((_, b)) => b,
                    None => match a[0] {
                        Expr::Path(_) => {
                            let f = a[0];
                            pe(quote!(#f()))
                        }
                        _ => return None,
                    },
                };
                self.count("option-unwrap_or_else");
                Some(pe(quote!(match #r { Some(vp_x) => vp_x, None => #body })))
            }
            // the round of a `fetch_update` that succeeds: the closure is given what the counter is, and the change is made
            ("fetch_update", 3) if matches!(strip(r), Expr::Path(_) | Expr::Field(_)) => {
                let (p, body) = closure(a[2], 1)?;
                let p = &p[0];
                let v = self.fresh("o");
                let mut more = quote!();
                if let Some(g) = self.ghostarg.get("compare_exchange") {
                    let g: Expr = parse_str(g).unwrap();
                    more = quote!(, #g);
                }
                self.count("fetch_update-contract");
                Some(pe(quote!({ let #v = #r.load(Ordering::Relaxed); match { let #p = #v; #body } { Some(vp_n) => #r.vp_update(#v, vp_n #more), None => Err(#v) } })))
            }
            ("expect", 1) => {
                if self.expect_strict {
                    self.count("expect-as-obligation");
                    Some(pe(quote!(#r.unwrap())))
                } else {
                    self.count("documented-panic");
                    Some(pe(quote!((#r).vp_expect())))
                }
            }
            ("for_each", 1) => {
                let (p, body) = closure(a[0], 1)?;
                let p = &p[0];
                self.count("for_each");
                let f: ExprForLoop = parse_quote!(for #p in #r { #body; });
                Some(self.tx_for(f))
            }
            // raw places
            ("write", 1) => {
                if let Expr::MethodCall(q) = &**r {
                    if q.method == "as_mut_ptr" {
                        let x = mutate(&q.receiver);
                        let v = a[0];
                        self.count("raw-place");
                        return Some(pe(quote!(#x.write(#v))));
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// A closure that stays gets the contract `result == body` (given its type), or the given one.
    fn closure_header(&mut self, a: &mut Expr) {
        if let Expr::Closure(c) = a {
            let k = self.nclosure;
            // a contract for another number of parameters is for a closure that comes later (this one is inside it)
            let fits = self.closures.get(&k).and_then(|t| t.trim().strip_prefix('|')?.split_once('|')).map_or(true, |(ty, _)| {
                syn::parse::Parser::parse_str(syn::punctuated::Punctuated::<Type, Token![,]>::parse_terminated, ty).map_or(true, |t| t.len() == c.inputs.len())
            });
            if !fits {
                self.bare_closures += 1;
                return;
            }
            self.nclosure += 1;
            if let Some(t) = self.closures.get(&k).cloned() {
                let mut t = t.trim().to_string();
                // types of the parameters
                if let Some((ty, rest)) = t.strip_prefix('|').and_then(|u| u.split_once('|')) {
                    let tys: syn::Result<syn::punctuated::Punctuated<Type, Token![,]>> = syn::parse::Parser::parse_str(syn::punctuated::Punctuated::parse_terminated, ty);
                    if let Ok(tys) = tys {
                        for (p, ty) in c.inputs.iter_mut().zip(tys) {
                            let q = strip_pat(p);
                            *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(ty) });
                        }
                    }
                    t = rest.trim().to_string();
                }
                for (k, p) in c.inputs.iter().enumerate() {
                    t = t.replace(&format!("@{}", k + 1), &strip_pat(p).to_token_stream().to_string());
                }
                let body = (*c.body).clone();
                let head = if t.contains("->") {
                    t
                } else {
                    format!("-> (vp_r: {}) ensures vp_r == ({})", t, body.to_token_stream())
                };
                let g = self.inv_stmt(&head);
                self.count("closure-contract");
                c.output = ReturnType::Default;
                *c.body = pe(quote!({ #g #body }));
            } else {
                self.bare_closures += 1;
            }
        }
    }

    /// not the name of a function
    fn is_value(&self, f: &Expr) -> bool {
        match strip(f) {
            Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                n.starts_with(|c: char| c.is_lowercase() || c == '_') && !n.starts_with("vp_") && p.path.segments[0].arguments.is_empty()
            }
            Expr::Field(_) | Expr::Unary(_) => true,
            _ => false,
        }
    }

    fn tx_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(x) = self.tx_method(&m) {
                    *e = x;
                } else {
                    let mut m = m;
                    for a in m.args.iter_mut() {
                        self.closure_header(a);
                    }
                    let n = m.method.to_string();
                    if let Some(g) = self.ghostarg.get(&n) {
                        let g: Expr = parse_str(g).unwrap();
                        m.args.push(g);
                        self.count("ghost-argument");
                        if let Some(l) = self.logname.get(&n) {
                            m.method = format_ident!("{}", l);
                        }
                    }
                    if matches!(n.as_str(), "iter" | "into_iter" | "extend" | "collect") {
                        m.method = format_ident!("vp_{}", n);
                        self.count("std-iterator-standin");
                    }
                    *e = Expr::MethodCall(m);
                }
            }
            Expr::Macro(m) => {
                let m = m.mac.clone();
                if let Some(mut x) = self.macro_expr(&m) {
                    self.visit_expr_mut(&mut x);
                    *e = x;
                }
            }
            Expr::Call(c) if self.dyncall && self.is_value(&c.func) => {
                let f = strip(&c.func);
                let mut args = c.args.clone();
                if let Some(Expr::Reference(r)) = args.first_mut() {
                    if matches!(&*r.expr, Expr::Field(_)) {
                        r.mutability = Some(Default::default());
                    }
                }
                self.count("call-of-function-value");
                if let Some(g) = self.ghostarg.get("vp_call") {
                    args.push(parse_str(g).unwrap());
                    self.count("ghost-argument");
                }
                *e = pe(quote!(#f.vp_call(#args)));
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.closure_header(a);
                }
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if self.refmut.contains(&n) {
                        for a in c.args.iter_mut() {
                            if let Expr::Reference(r) = a {
                                if r.mutability.is_none() {
                                    r.mutability = Some(Default::default());
                                    *self.counts.entry("shared-ref-as-mut".into()).or_default() += 1;
                                }
                            }
                        }
                    }
                    if let Some(g) = self.ghostarg.get(&n) {
                        let g: Expr = parse_str(g).unwrap();
                        c.args.push(g);
                        *self.counts.entry("ghost-argument".into()).or_default() += 1;
                        if let (Some(l), Expr::Path(p)) = (self.logname.get(&n), &mut *c.func) {
                            p.path.segments.last_mut().unwrap().ident = format_ident!("{}", l);
                        }
                    }
                }
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "ptr::read" || f == "std::ptr::read" {
                    if let Some(Expr::MethodCall(q)) = c.args.first() {
                        if q.method == "as_mut_ptr" || q.method == "as_ptr" {
                            let x = mutate(&q.receiver);
                            self.count("raw-place");
                            *e = pe(quote!(#x.assume_init_take()));
                        } else if q.method == "get" && q.args.is_empty() {
                            let x = mutate(&q.receiver);
                            self.count("raw-place");
                            *e = pe(quote!(#x.vp_take()));
                        }
                    }
                } else if f.starts_with("mem::transmute::<") {
                    let x = c.args.first().cloned();
                    let muta = f.starts_with("mem::transmute::<&mut");
                    self.count("transmute");
                    let n = if muta { format_ident!("vp_cells_as_mut_slice") } else { format_ident!("vp_cells_as_slice") };
                    *e = pe(quote!(#n(#x)));
                }
            }
            Expr::Unary(u) => {
                if let UnOp::Deref(_) = u.op {
                    let mut inner = (*u.expr).clone();
                    while let Expr::Paren(p) = inner {
                        inner = *p.expr;
                    }
                    if let Expr::MethodCall(q) = &inner {
                        let x = (*q.receiver).clone();
                        if q.method == "get" && q.args.is_empty() {
                            self.count("raw-place");
                            *e = pe(quote!(#x.value));
                        } else if q.method == "as_ptr" {
                            self.count("raw-place");
                            *e = pe(quote!(*#x.assume_init_ref()));
                        } else if q.method == "as_mut_ptr" {
                            let x = mutate(&x);
                            self.count("raw-place");
                            *e = pe(quote!(*#x.assume_init_mut()));
                        }
                    }
                }
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() && self.mutself {
                    let x = mutate(&r.expr);
                    *r.expr = x;
                }
            }
            Expr::Assign(a) => {
                if self.mutself {
                    let x = mutate(&a.left);
                    *a.left = x;
                }
            }
            _ => {}
        }
    }
}

fn strip(e: &Expr) -> Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => strip(&u.expr),
        e => e.clone(),
    }
}

/// `get_unchecked` / `get(i)` on the path of a mutable place become their `_mut` forms.
fn mutate(e: &Expr) -> Expr {
    match e {
        Expr::MethodCall(m) => {
            let mut m = m.clone();
            if m.method == "get_unchecked" {
                m.method = format_ident!("get_unchecked_mut");
            } else if m.method == "get" && m.args.len() == 1 {
                m.method = format_ident!("get_mut");
            } else if m.method == "assume_init_ref" {
                m.method = format_ident!("assume_init_mut");
            }
            m.receiver = Box::new(mutate(&m.receiver));
            Expr::MethodCall(m)
        }
        Expr::Field(f) => {
            let mut f = f.clone();
            f.base = Box::new(mutate(&f.base));
            Expr::Field(f)
        }
        Expr::Paren(p) => {
            let mut p = p.clone();
            p.expr = Box::new(mutate(&p.expr));
            Expr::Paren(p)
        }
        Expr::Unary(p) => {
            let mut p = p.clone();
            p.expr = Box::new(mutate(&p.expr));
            Expr::Unary(p)
        }
        e => e.clone(),
    }
}

impl<'a> VisitMut for Tx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let mut consts: Vec<Stmt> = vec![];
        // `panic!(..);` at the end of a block has the type the block needs
        if let Some(Stmt::Macro(m)) = b.stmts.last_mut() {
            if ["panic", "unreachable", "unimplemented", "todo"].iter().any(|n| m.mac.path.is_ident(n)) {
                m.semi_token = None;
            }
        }
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(Item::Const(c)) => {
                    // at the front of its block
                    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                    self.count("const-as-let");
                    consts.push(parse_quote!(let #i: #t = #e;));
                }
                Stmt::Item(_) => self.count("hoisted-inner-item"),
                Stmt::Macro(m) => {
                    if let Some(mut x) = self.macro_expr(&m.mac) {
                        self.visit_expr_mut(&mut x);
                        out.push(Stmt::Expr(x, m.semi_token));
                    } else {
                        out.push(Stmt::Macro(m));
                    }
                }
                s => out.push(s),
            }
        }
        consts.extend(out);
        b.stmts = consts;
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
    }
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.tx_for(f);
                return;
            }
            Expr::While(w) => {
                let w = w.clone();
                *e = self.tx_while(w);
                return;
            }
            Expr::Loop(l) => {
                let (k, spec) = self.loop_spec("loop");
                self.visit_block_mut(&mut l.body);
                let mut body = l.body.clone();
                self.weave(&spec, k, "", "", "", "", "", "", &mut body);
                l.body = body;
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        tx_bits(e);
        self.tx_expr(e);
    }
}

/// the variables a loop assigns that it does not itself declare
fn assigned(b: &Block) -> Vec<String> {
    struct V(Vec<String>, Vec<String>);
    impl V {
        fn put(&mut self, e: &Expr) {
            if let Expr::Path(p) = e {
                if let Some(i) = p.path.get_ident() {
                    if !self.0.contains(&i.to_string()) {
                        self.0.push(i.to_string());
                    }
                }
            }
        }
    }
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
            self.put(&a.left);
            syn::visit::visit_expr_assign(self, a);
        }
        fn visit_expr_binary(&mut self, a: &'ast ExprBinary) {
            if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) {
                self.put(&a.left);
            }
            syn::visit::visit_expr_binary(self, a);
        }
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.1.push(p.ident.to_string());
        }
    }
    let mut v = V(vec![], vec![]);
    syn::visit::Visit::visit_block(&mut v, b);
    let V(a, d) = v;
    a.into_iter().filter(|x| !d.contains(x)).collect()
}

/// `|`, `&` and `^`, which Verus knows for integers but not for `bool`, become calls of a trait for both.
fn tx_bits(e: &mut Expr) {
    let Expr::Binary(b) = &*e else { return };
    let (f, assign) = match b.op {
        BinOp::BitOr(_) => ("vp_or", false),
        BinOp::BitAnd(_) => ("vp_and", false),
        BinOp::BitXor(_) => ("vp_xor", false),
        BinOp::BitOrAssign(_) => ("vp_or", true),
        BinOp::BitAndAssign(_) => ("vp_and", true),
        BinOp::BitXorAssign(_) => ("vp_xor", true),
        _ => return,
    };
    let f = format_ident!("{}", f);
    let (l, r) = (&b.left, &b.right);
    *e = if assign {
        parse_quote!({ let vp_rhs = #r; #l = (#l).#f(vp_rhs); })
    } else {
        parse_quote!((#l).#f(#r))
    };
}

/// `if c { ..; return x; } rest` becomes `if c { ..; x } else { rest }` (same for a trailing
/// `return x;`), so that a helper can be put in place.
pub fn eliminate_returns(b: &mut Block) {
    // trailing `return x;`
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        let x = r.expr.clone();
        b.stmts.pop();
        if let Some(x) = x {
            b.stmts.push(Stmt::Expr(*x, None));
        }
    }
    for i in 0..b.stmts.len() {
        let hit = match &b.stmts[i] {
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() => {
                matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
            }
            _ => false,
        };
        if hit {
            let rest = b.stmts.split_off(i + 1);
            if let Some(Stmt::Expr(Expr::If(mut f), _)) = b.stmts.pop() {
                eliminate_returns(&mut f.then_branch);
                let mut eb = Block { brace_token: Default::default(), stmts: rest };
                eliminate_returns(&mut eb);
                f.else_branch = Some((
                    Default::default(),
                    Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: eb })),
                ));
                b.stmts.push(Stmt::Expr(Expr::If(f), None));
            }
            return;
        }
    }
    // tail if/match arms
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        elim_tail(e);
    }
}
fn elim_tail(e: &mut Expr) {
    match e {
        Expr::If(f) => {
            eliminate_returns(&mut f.then_branch);
            if let Some((_, x)) = &mut f.else_branch {
                elim_tail(x);
            }
        }
        Expr::Block(b) => eliminate_returns(&mut b.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                if let Expr::Return(r) = &*a.body {
                    if let Some(x) = r.expr.clone() {
                        a.body = x;
                    }
                } else {
                    elim_tail(&mut a.body);
                }
            }
        }
        _ => {}
    }
}
