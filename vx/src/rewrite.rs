// The mechanical rewrites (see DESIGN.md)
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};

#[derive(Default, Clone)]
pub struct Config {
    pub mono: HashSet<String>,          // types whose generic arguments are dropped
    pub map: HashMap<String, String>,   // identifier of a type -> identifier
    pub methods: HashMap<String, String>,
    pub vec_types: HashSet<String>,     // types with `v[i]` meaning `v.data[i]`
    pub vec_fields: HashSet<String>,
}

pub struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !is_noop(s));
        visit_mut::visit_block_mut(self, b);
    }
}

/// iterator chains written as the loops they stand for; calls of function arguments as calls of a method
pub struct Desugar {
    pub functions: HashMap<String, String>, // parameter -> type with the method `call`
    optional: HashSet<String>, // optional arguments and fields given as objects with the method `is_some`
    resmap: bool,
    k: usize,
}
struct Subst<'a>(&'a str, &'a syn::Expr);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            if p.path.is_ident(self.0) {
                *e = self.1.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl Desugar {
    pub fn new(opts: &[String]) -> Self {
        let functions = opts.iter().filter_map(|o| o.strip_prefix("fn:")).filter_map(|o| o.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let optional = opts.iter().filter_map(|o| o.strip_prefix("opt:")).map(|o| o.to_string()).collect();
        Desugar { functions, optional, resmap: opts.iter().any(|o| o == "resmap"), k: 0 }
    }
    pub fn signature(&self, sig: &mut syn::Signature) {
        for a in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(p) = a {
                if let syn::Pat::Ident(pi) = &mut *p.pat {
                    if let Some(t) = self.functions.get(&pi.ident.to_string()) {
                        let t: syn::Type = syn::parse_str(t).unwrap();
                        pi.mutability = None;
                        *p.ty = syn::parse_quote!(&mut #t);
                    }
                }
            }
        }
    }
}
fn method<'a>(e: &'a syn::Expr, name: &str, nargs: usize) -> Option<&'a syn::ExprMethodCall> {
    match e {
        syn::Expr::MethodCall(m) if m.method == name && m.args.len() == nargs => Some(m),
        _ => None,
    }
}
fn closure1(e: &syn::Expr) -> Option<(&syn::Pat, &syn::Expr)> {
    match e {
        syn::Expr::Closure(c) if c.inputs.len() == 1 => Some((&c.inputs[0], &c.body)),
        _ => None,
    }
}
impl VisitMut for Desugar {
    // const NAME: f64 = E; inside of a function (the others are kept)
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let syn::Stmt::Item(syn::Item::Const(c)) = s {
            let (name, ty, e) = (&c.ident, &c.ty, &c.expr);
            if ty.to_token_stream().to_string() == "f64" {
                *s = syn::parse_quote! { let #name: #ty = #e; };
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        // (a..b).map(|p| E).collect()
        if let Some(new) = (|| -> Option<syn::Expr> {
            let map = method(&method(e, "collect", 0)?.receiver, "map", 1)?;
            let syn::Expr::Paren(p) = &*map.receiver else { return None };
            let syn::Expr::Range(r) = &*p.expr else { return None };
            let syn::RangeLimits::HalfOpen(_) = r.limits else { return None };
            let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
            let (pat, body) = closure1(&map.args[0])?;
            let v = syn::Ident::new(&format!("vx_c{}", self.k), proc_macro2::Span::call_site());
            syn::parse2(quote! {{ let mut #v = Vec::new(); for #pat in #a..#b { #v.push(#body); } #v }}).ok()
        })() {
            *e = new;
            self.k += 1;
        }
        // x.iter().for_each(|p| E)
        if let Some(new) = (|| -> Option<syn::Expr> {
            let fe = method(e, "for_each", 1)?;
            let it = method(&fe.receiver, "iter", 0)?;
            let (pat, body) = closure1(&fe.args[0])?;
            let x = &it.receiver;
            syn::parse2(quote! { for #pat in #x.iter() { #body; } }).ok()
        })() {
            *e = new;
        }
        // for (i, p) in x.iter().enumerate()
        if let syn::Expr::ForLoop(f) = e {
            if let Some((x, i, p)) = (|| -> Option<(syn::Expr, syn::Pat, syn::Pat)> {
                let it = method(&method(&f.expr, "enumerate", 0)?.receiver, "iter", 0)?;
                let syn::Pat::Tuple(t) = &*f.pat else { return None };
                if t.elems.len() != 2 || !simple_place(&it.receiver) {
                    return None;
                }
                Some(((*it.receiver).clone(), t.elems[0].clone(), t.elems[1].clone()))
            })() {
                let mut new: Vec<syn::Stmt> = vec![];
                match &p {
                    syn::Pat::Tuple(t) => {
                        for (k, q) in t.elems.iter().enumerate() {
                            let k = syn::Index::from(k);
                            new.push(syn::parse2(quote! { let #q = &#x[#i].#k; }).unwrap());
                        }
                    }
                    q => new.push(syn::parse2(quote! { let #q = &#x[#i]; }).unwrap()),
                }
                new.extend(std::mem::take(&mut f.body.stmts));
                f.body.stmts = new;
                *f.pat = i;
                *f.expr = syn::parse2(quote! { 0..#x.len() }).unwrap();
            }
        }
        // if let Some(p) = x.as_deref_mut() {B} / x.as_mut(): an optional argument is an object with the method is_some
        if let syn::Expr::If(f) = e {
            if let Some((x, p)) = (|| -> Option<(syn::Expr, String)> {
                let syn::Expr::Let(l) = &*f.cond else { return None };
                let m = method(&l.expr, "as_deref_mut", 0).or(method(&l.expr, "as_mut", 0)).or(method(&l.expr, "as_ref", 0))?;
                let key = m.receiver.to_token_stream().to_string().replace(' ', "").replace("self.", "");
                if !self.optional.contains(&key) {
                    return None;
                }
                let syn::Pat::TupleStruct(t) = &*l.pat else { return None };
                let syn::Pat::Ident(p) = t.elems.first()? else { return None };
                Some(((*m.receiver).clone(), p.ident.to_string()))
            })() {
                *f.cond = syn::parse2(quote! { #x.is_some() }).unwrap();
                Subst(&p, &x).visit_block_mut(&mut f.then_branch);
            }
        }
        // `if c { A; continue; } B` as the statements of a for loop: `if c { A } else { B }`
        if let syn::Expr::ForLoop(f) = e {
            no_continue(&mut f.body);
        }
        // r.map(|p| E) of a result
        if self.resmap {
            if let Some(new) = (|| -> Option<syn::Expr> {
                let m = method(e, "map", 1)?;
                let (pat, body) = closure1(&m.args[0])?;
                let x = &m.receiver;
                syn::parse2(quote! { match #x { Ok(#pat) => Ok(#body), Err(vx_e) => Err(vx_e) } }).ok()
            })() {
                *e = new;
            }
        }
        // (x.f)(args): a function held in a field
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Paren(p) = &*c.func {
                // (x.f.as_ref().unwrap())(args): an optional function
                let inner = method(&p.expr, "unwrap", 0).and_then(|u| method(&u.receiver, "as_ref", 0)).map(|m| &m.receiver).unwrap_or(&p.expr);
                if let syn::Expr::Field(_) = &**inner {
                    let (f, args) = (inner, &c.args);
                    *e = syn::parse2(quote! { #f.call(#args) }).unwrap();
                }
            }
        }
        // f(x)
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Path(p) = &*c.func {
                if let Some(id) = p.path.get_ident() {
                    if self.functions.contains_key(&id.to_string()) {
                        let args = &c.args;
                        *e = syn::parse2(quote! { #id.call(#args) }).unwrap();
                    }
                }
            }
        }
    }
}

fn no_continue(b: &mut syn::Block) {
    for i in 0..b.stmts.len() {
        if let syn::Stmt::Expr(syn::Expr::If(f), _) = &mut b.stmts[i] {
            let ends = match f.then_branch.stmts.last() {
                Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) => c.label.is_none(),
                _ => false,
            };
            if ends && f.else_branch.is_none() {
                f.then_branch.stmts.pop();
                let rest: Vec<syn::Stmt> = b.stmts.split_off(i + 1);
                let mut block: syn::Block = syn::parse2(quote! {{ #(#rest)* }}).unwrap();
                no_continue(&mut block);
                if let syn::Stmt::Expr(syn::Expr::If(f), _) = &mut b.stmts[i] {
                    f.else_branch = Some((Default::default(), Box::new(syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block }))));
                }
                return;
            }
        }
    }
}

fn is_noop(s: &syn::Stmt) -> bool {
    // `let _ = LITERAL;`
    if let syn::Stmt::Local(l) = s {
        if matches!(l.pat, syn::Pat::Wild(_)) {
            if let Some(init) = &l.init {
                return matches!(*init.expr, syn::Expr::Lit(_));
            }
        }
    }
    false
}

pub fn collect_vec_locals(b: &syn::Block, cfg: &Config, out: &mut HashMap<String, ()>) {
    struct C<'a>(&'a Config, &'a mut HashMap<String, ()>);
    impl<'a, 'b> Visit<'b> for C<'a> {
        fn visit_local(&mut self, l: &'b syn::Local) {
            if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                if let syn::Expr::Call(c) = &*init.expr {
                    if let syn::Expr::Path(path) = &*c.func {
                        if path.path.segments.len() >= 2 {
                            let t = path.path.segments[path.path.segments.len() - 2].ident.to_string();
                            let t2 = self.0.map.get(&t).cloned().unwrap_or(t.clone());
                            if self.0.vec_types.contains(&t) || self.0.vec_types.contains(&t2) {
                                self.1.insert(p.ident.to_string(), ());
                            }
                        }
                    }
                }
                // let v = &mut self.field / &self.field
                if let syn::Expr::Reference(r) = &*init.expr {
                    if let syn::Expr::Field(f) = &*r.expr {
                        if let syn::Member::Named(n) = &f.member {
                            if self.0.vec_fields.contains(&n.to_string()) {
                                self.1.insert(p.ident.to_string(), ());
                            }
                        }
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    C(cfg, out).visit_block(b);
}

pub struct Rewriter<'a> {
    cfg: &'a Config,
    vec_vars: HashMap<String, ()>,
    opts: Vec<String>,
    pub unsupported: Vec<String>,
}

impl<'a> Rewriter<'a> {
    pub fn new(cfg: &'a Config, vec_vars: HashMap<String, ()>, opts: Vec<String>) -> Self {
        Rewriter { cfg, vec_vars, opts, unsupported: vec![] }
    }
    fn is_vec(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(p) => p.path.get_ident().map(|i| self.vec_vars.contains_key(&i.to_string())).unwrap_or(false),
            syn::Expr::Field(f) => match &f.member {
                syn::Member::Named(n) => self.cfg.vec_fields.contains(&n.to_string()),
                _ => false,
            },
            syn::Expr::Paren(p) => self.is_vec(&p.expr),
            // element of a list of vectors
            syn::Expr::Index(ix) => {
                let name = ix.expr.to_token_stream().to_string().replace(' ', "").replace("self.", "");
                self.opts.iter().any(|o| o.strip_prefix("vecvec:").map(|l| l.split(',').any(|n| n == name)).unwrap_or(false))
            }
            _ => false,
        }
    }
    fn opt(&self, o: &str) -> bool {
        self.opts.iter().any(|x| x == o)
    }
}

pub fn lit_to_real(s: &str) -> Option<String> {
    // decimal literal -> exact rational as a Verus real expression
    let s: String = s.chars().filter(|c| *c != '_').collect();
    let s = s.trim_end_matches("f64").to_string();
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') {
        Some(k) => (s[..k].to_string(), s[k + 1..].parse::<i32>().ok()?),
        None => (s.clone(), 0),
    };
    let (ip, fp) = match mant.find('.') {
        Some(k) => (mant[..k].to_string(), mant[k + 1..].to_string()),
        None => (mant.clone(), String::new()),
    };
    let fp = fp.trim_end_matches('0').to_string();
    let mut digits = format!("{}{}", ip, fp).trim_start_matches('0').to_string();
    if digits.is_empty() {
        return Some("0real".into());
    }
    let mut e = exp - fp.len() as i32;
    while e < 0 && digits.ends_with('0') {
        digits.pop();
        e += 1;
    }
    if e >= 0 {
        Some(format!("{}{}real", digits, "0".repeat(e as usize)))
    } else {
        Some(format!("({}real / 1{}real)", digits, "0".repeat((-e) as usize)))
    }
}

/// library idioms replaced by trusted functions with a contract
fn idiom(e: &syn::Expr) -> Option<syn::Expr> {
    // usize::max(a, b) and usize::min(a, b)
    if let syn::Expr::Call(c) = e {
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        if c.args.len() == 2 && (f == "usize::max" || f == "usize::min") {
            let (a, b) = (&c.args[0], &c.args[1]);
            let n = syn::Ident::new(if f == "usize::max" { "vx_umax" } else { "vx_umin" }, proc_macro2::Span::call_site());
            return syn::parse2(quote! { #n(#a, #b) }).ok();
        }
        // Vec::from(slice)
        if c.args.len() == 1 && f == "Vec::from" {
            let a = &c.args[0];
            return syn::parse2(quote! { vx_vec_from(#a) }).ok();
        }
    }
    let syn::Expr::MethodCall(mc) = e else { return None };
    // cast(e).unwrap() between real numbers
    if mc.method == "unwrap" {
        if let syn::Expr::Call(c) = &*mc.receiver {
            if c.func.to_token_stream().to_string() == "cast" && c.args.len() == 1 {
                return Some(c.args[0].clone());
            }
        }
    }
    // cast::<usize, T>(e).unwrap()
    if mc.method == "unwrap" {
        if let syn::Expr::Call(c) = &*mc.receiver {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f == "cast::<usize,T>" && c.args.len() == 1 {
                let a = &c.args[0];
                return syn::parse2(quote! { R::of_int((#a) as i128) }).ok();
            }
        }
    }
    // a.copy_from_slice(b) on a whole vector
    if mc.method == "copy_from_slice" && mc.args.len() == 1 && matches!(&*mc.receiver, syn::Expr::Field(_) | syn::Expr::Path(_)) {
        let (a, b) = (&mc.receiver, &mc.args[0]);
        return syn::parse2(quote! { vx_copy_from_slice(&mut #a, #b) }).ok();
    }
    // X.iter().any(|v| v.is_nan())
    if mc.method == "any" && mc.args.len() == 1 {
        if mc.args[0].to_token_stream().to_string().replace(' ', "") != "|v|v.is_nan()" {
            return None;
        }
        let syn::Expr::MethodCall(it) = &*mc.receiver else { return None };
        if it.method != "iter" {
            return None;
        }
        let x = &it.receiver;
        return syn::parse2(quote! { vx_any_nan(#x) }).ok();
    }
    // X[a..b].sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap())
    if mc.method == "sort_by" && mc.args.len() == 1 && mc.args[0].to_token_stream().to_string().replace(' ', "") == "|a,b|a.partial_cmp(b).unwrap()" {
        let x = &mc.receiver;
        return syn::parse2(quote! { vx_sort(&mut #x) }).ok();
    }
    if mc.method == "sort_by" && mc.args.len() == 1 {
        let cmp = mc.args[0].to_token_stream().to_string().replace(' ', "");
        if cmp != "|a,b|a.0.partial_cmp(&b.0).unwrap()" {
            return None;
        }
        let syn::Expr::Index(ix) = &*mc.receiver else { return None };
        let syn::Expr::Range(rg) = &*ix.index else { return None };
        let (a, b, x) = (rg.start.as_ref()?, rg.end.as_ref()?, &ix.expr);
        if !matches!(rg.limits, syn::RangeLimits::HalfOpen(_)) {
            return None;
        }
        return syn::parse2(quote! { vx_sort_pairs(#x, #a, #b) }).ok();
    }
    // X.iter_mut().map(|x| *x = v).count()
    if mc.method == "count" && mc.args.is_empty() {
        let syn::Expr::MethodCall(map) = &*mc.receiver else { return None };
        if map.method != "map" || map.args.len() != 1 {
            return None;
        }
        let syn::Expr::MethodCall(it) = &*map.receiver else { return None };
        if it.method != "iter_mut" {
            return None;
        }
        let syn::Expr::Closure(cl) = &map.args[0] else { return None };
        let syn::Expr::Assign(a) = &*cl.body else { return None };
        let v = cl.inputs.first()?.to_token_stream().to_string();
        if a.left.to_token_stream().to_string() != format!("* {}", v) {
            return None;
        }
        let x = &it.receiver;
        let value = &a.right;
        return syn::parse2(quote! { vx_fill(&mut #x, #value) }).ok();
    }
    // i32::try_from(x).unwrap() and cast::<usize, T>(x).unwrap()
    if mc.method == "unwrap" && mc.args.is_empty() {
        let syn::Expr::Call(c) = &*mc.receiver else { return None };
        let f = c.func.to_token_stream().to_string().replace(' ', "");
        let x = c.args.first()?;
        if f == "i32::try_from" {
            return syn::parse2(quote! { vx_to_i32(#x) }).ok();
        }
        if f == "cast::<usize,T>" {
            return syn::parse2(quote! { R::of_int((#x) as i128) }).ok();
        }
    }
    None
}

fn simple_place(e: &syn::Expr) -> bool {
    // no calls inside, so evaluating the place twice is the same as once
    struct S(bool);
    impl<'a> Visit<'a> for S {
        fn visit_expr_call(&mut self, _: &'a syn::ExprCall) {
            self.0 = false;
        }
        fn visit_expr_method_call(&mut self, _: &'a syn::ExprMethodCall) {
            self.0 = false;
        }
        fn visit_expr_macro(&mut self, _: &'a syn::ExprMacro) {
            self.0 = false;
        }
    }
    let mut s = S(true);
    s.visit_expr(e);
    s.0
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        // associated type of an operator trait: `type Output = T`
        if p.to_token_stream().to_string().replace(' ', "") == "Self::Output" && self.cfg.map.contains_key("T") {
            *p = syn::parse_str("T").unwrap();
        }
        for s in p.segments.iter_mut() {
            let id = s.ident.to_string();
            if let Some(n) = self.cfg.map.get(&id) {
                s.ident = syn::Ident::new(n, s.ident.span());
            }
            if self.cfg.mono.contains(&s.ident.to_string()) {
                s.arguments = syn::PathArguments::None;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        t.lifetime = None;
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        // compound assignment
        if let syn::Expr::Binary(b) = e {
            let op: Option<syn::BinOp> = match b.op {
                syn::BinOp::AddAssign(_) => Some(syn::parse_quote!(+)),
                syn::BinOp::SubAssign(_) => Some(syn::parse_quote!(-)),
                syn::BinOp::MulAssign(_) => Some(syn::parse_quote!(*)),
                syn::BinOp::DivAssign(_) => Some(syn::parse_quote!(/)),
                _ => None,
            };
            if let Some(op) = op {
                if !self.opt("keepassign") {
                    if !simple_place(&b.left) {
                        self.unsupported.push(format!("compound assignment with calls in the place: {}", b.left.to_token_stream()));
                    }
                    let l = &b.left;
                    let r = &b.right;
                    let simple = matches!(**r, syn::Expr::Path(_) | syn::Expr::Lit(_) | syn::Expr::Index(_) | syn::Expr::Field(_) | syn::Expr::MethodCall(_) | syn::Expr::Call(_));
                    let new: syn::Expr = if simple {
                        syn::parse2(quote! { #l = #l #op #r }).unwrap()
                    } else {
                        syn::parse2(quote! { #l = #l #op (#r) }).unwrap()
                    };
                    *e = new;
                }
            }
        }
        // x.into() -> x (elements already of the working type)
        if self.opt("into_id") {
            if let syn::Expr::MethodCall(mc) = e {
                if mc.method == "into" && mc.args.is_empty() {
                    let new = (*mc.receiver).clone();
                    *e = new;
                }
            }
        }
        // v[i] -> v.data[i]
        if let syn::Expr::Index(ix) = e {
            if self.is_vec(&ix.expr) {
                let b = &ix.expr;
                let i = &ix.index;
                let new: syn::Expr = syn::parse2(quote! { #b.data[#i] }).unwrap();
                *e = new;
                // do not visit the new base again
                if let syn::Expr::Index(ix2) = e {
                    self.visit_expr_mut(&mut ix2.index);
                    if let syn::Expr::Field(f) = &mut *ix2.expr {
                        self.visit_expr_mut(&mut f.base);
                    }
                }
                return;
            }
        }
        // float literals
        if let syn::Expr::Lit(l) = e {
            if let syn::Lit::Float(f) = &l.lit {
                match lit_to_real(&f.to_string()) {
                    Some(r) => {
                        let t: TokenStream = r.parse().unwrap();
                        *e = syn::parse2(quote! { R::lit(Ghost(#t)) }).unwrap();
                    }
                    None => self.unsupported.push(format!("literal {}", f)),
                }
                return;
            }
        }
        // f64::INFINITY
        if let syn::Expr::Path(p) = e {
            if p.path.to_token_stream().to_string().replace(' ', "") == "f64::INFINITY" && self.cfg.map.get("f64").map(|s| s == "R").unwrap_or(false) {
                *e = syn::parse_quote!(R::infinity());
                return;
            }
        }
        // f64::MAX
        if let syn::Expr::Path(p) = e {
            if p.path.to_token_stream().to_string().replace(' ', "") == "f64::MAX" && self.cfg.map.get("f64").map(|s| s == "R").unwrap_or(false) {
                *e = syn::parse_quote!(R::largest());
                return;
            }
        }
        // f64::ceil(x) as usize
        if let syn::Expr::Cast(c) = e {
            let f = match &*c.expr { syn::Expr::Call(f) => f.func.to_token_stream().to_string().replace(' ', ""), _ => String::new() };
            if (f == "f64::ceil" || f == "f64::floor") && c.ty.to_token_stream().to_string() == "usize" {
                let mut inner = (*c.expr).clone();
                self.visit_expr_mut(&mut inner);
                *e = syn::parse2(quote! { R::to_usize(#inner) }).unwrap();
                return;
            }
        }
        // f64::EPSILON
        if let syn::Expr::Path(p) = e {
            if p.path.to_token_stream().to_string().replace(' ', "") == "f64::EPSILON" && self.cfg.map.get("f64").map(|s| s == "R").unwrap_or(false) {
                *e = syn::parse_quote!(R::eps());
                return;
            }
        }
        // casts to f64
        if let syn::Expr::Cast(c) = e {
            if c.ty.to_token_stream().to_string() == "f64" && self.cfg.map.get("f64").map(|s| s == "R").unwrap_or(false) {
                let mut inner = (*c.expr).clone();
                self.visit_expr_mut(&mut inner);
                *e = syn::parse2(quote! { R::of_int((#inner) as i128) }).unwrap();
                return;
            }
        }
        // macros in expression position
        if let syn::Expr::Macro(m) = e {
            let is_vec = m.mac.path.is_ident("vec");
            if let Some(new) = self.macro_expr(&m.mac) {
                *e = new;
                if !is_vec {
                    visit_mut::visit_expr_mut(self, e);
                }
                return;
            }
        }
        // associated constants and constants of type f64
        if let syn::Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if let Some(n) = self.cfg.map.get(&format!("const:{}", id)) {
                    let t: TokenStream = n.parse().unwrap();
                    *e = syn::parse2(quote! { #t() }).unwrap();
                    return;
                }
            }
        }
        // (a..b).collect() -> vx_collect_range(a, b)
        if let syn::Expr::MethodCall(mc) = e {
            if mc.method == "collect" && mc.args.is_empty() {
                if let syn::Expr::Paren(p) = &*mc.receiver {
                    if let syn::Expr::Range(r) = &*p.expr {
                        if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let new: syn::Expr = syn::parse2(quote! { vx_collect_range(#a, #b) }).unwrap();
                            *e = new;
                        }
                    }
                }
            }
        }
        if let Some(new) = idiom(e) {
            *e = new;
        }
        if let syn::Expr::MethodCall(mc) = e {
            if let Some(n) = self.cfg.methods.get(&mc.method.to_string()) {
                mc.method = syn::Ident::new(n, mc.method.span());
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
        // `for (a, b) in &x[p1..p2]` over a range of a vector of pairs
        if let (syn::Expr::Reference(r), syn::Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
            if let syn::Expr::Index(ix) = &*r.expr {
                if let syn::Expr::Range(rg) = &*ix.index {
                    if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_), 2) = (&rg.start, &rg.end, &rg.limits, t.elems.len()) {
                        let x = ix.expr.clone();
                        let (pa, pb) = (&t.elems[0], &t.elems[1]);
                        let s1: syn::Stmt = syn::parse2(quote! { let #pa = &#x[vx_q].0; }).unwrap();
                        let s2: syn::Stmt = syn::parse2(quote! { let #pb = &#x[vx_q].1; }).unwrap();
                        let new: syn::Expr = syn::parse2(quote! { vx_check_range(#a, #b, #x.len())..#b }).unwrap();
                        f.body.stmts.insert(0, s2);
                        f.body.stmts.insert(0, s1);
                        *f.expr = new;
                        *f.pat = syn::parse_quote!(vx_q);
                    }
                }
            }
        }
        // `for p in list` over a reference to a slice or vector
        if let syn::Expr::Path(p) = &*f.expr {
            let p = p.clone();
            *f.expr = syn::parse2(quote! { #p.iter() }).unwrap();
        } else if let syn::Expr::Reference(r) = &*f.expr {
            let x = &r.expr;
            *f.expr = syn::parse2(quote! { #x.iter() }).unwrap();
        }
        // `for _ in`
        if matches!(*f.pat, syn::Pat::Wild(_)) {
            *f.pat = syn::parse_quote!(_vx_i);
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        for s in b.stmts.iter_mut() {
            if let syn::Stmt::Macro(m) = s {
                if let Some(new) = self.macro_expr(&m.mac) {
                    *s = syn::Stmt::Expr(new, Some(Default::default()));
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_receiver_mut(&mut self, _: &mut syn::Receiver) {}
}

impl<'a> Rewriter<'a> {
    fn macro_expr(&mut self, m: &syn::Macro) -> Option<syn::Expr> {
        let name = m.path.to_token_stream().to_string();
        let args = || -> Vec<syn::Expr> {
            m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default()
        };
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(syn::parse_quote!(vx_panic())),
            "assert" | "debug_assert" => {
                let a = args();
                let c = a.first()?;
                Some(syn::parse_quote!(if !(#c) { vx_panic() }))
            }
            "assert_eq" => {
                let a = args();
                let (x, y) = (a.first()?, a.get(1)?);
                Some(syn::parse_quote!(if !(#x == #y) { vx_panic() }))
            }
            "println" | "print" | "eprintln" => Some(syn::parse_quote!(())),
            "vec" => {
                let parsed = m.parse_body_with(|input: syn::parse::ParseStream| {
                    if input.is_empty() {
                        return Ok((vec![], false));
                    }
                    let a: syn::Expr = input.parse()?;
                    let mut all = vec![a];
                    let repeat = input.peek(syn::Token![;]);
                    while !input.is_empty() {
                        if repeat {
                            input.parse::<syn::Token![;]>()?;
                        } else {
                            input.parse::<syn::Token![,]>()?;
                            if input.is_empty() {
                                break;
                            }
                        }
                        all.push(input.parse()?);
                    }
                    Ok((all, repeat))
                });
                let (mut all, repeat) = parsed.ok()?;
                for x in all.iter_mut() {
                    self.visit_expr_mut(x);
                }
                if repeat {
                    let (a, b) = (&all[0], &all[1]);
                    syn::parse2(quote! { vec![#a; #b] }).ok()
                } else {
                    syn::parse2(quote! { vec![#(#all),*] }).ok()
                }
            }
            "format" => None,
            _ if name.starts_with("__vx") => None,
            _ => {
                self.unsupported.push(format!("macro {}", name));
                None
            }
        }
    }
}
