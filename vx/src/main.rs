// Mechanical extractor: reads functions and types from the current source of /repo and fills a contract template.
//
//   vx gen TEMPLATE REPO OUT BASELINE [--update]
//
// The rewrites applied to the extracted code are listed in DESIGN.md ("What extraction changes").
mod rewrite;
mod kx;
mod sx;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use rewrite::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

#[derive(Default, Clone)]
struct FnReq {
    file: String,
    path: String,
    alias: Option<String>,
    opts: Vec<String>,
    sections: Vec<(String, String)>, // (directive, text)
}

fn die(msg: &str) -> ! {
    println!("{}", json!({"fatal": msg}));
    std::process::exit(3);
}

fn norm(s: &str) -> String {
    // token-normalised text
    match s.parse::<TokenStream>() {
        Ok(t) => t.to_string(),
        Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" "),
    }
}

struct Files {
    repo: String,
    cache: HashMap<String, syn::File>,
}

impl Files {
    fn get(&mut self, f: &str) -> Result<&syn::File, String> {
        if !self.cache.contains_key(f) {
            let text = fs::read_to_string(format!("{}/{}", self.repo, f)).map_err(|e| format!("cannot read {}: {}", f, e))?;
            let file = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {}", f, e))?;
            self.cache.insert(f.to_string(), file);
        }
        Ok(&self.cache[f])
    }
}

fn type_last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_last_ident(&r.elem),
        _ => String::new(),
    }
}

struct Found {
    self_ty: Option<String>,
    sig: syn::Signature,
    block: syn::Block,
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
}

fn find_fn(file: &syn::File, path: &str) -> Option<Found> {
    // path: name | Type::name | <Trait for Type>::name
    let (tr, ty, name): (Option<String>, Option<String>, String) = if let Some(rest) = path.strip_prefix('<') {
        let (inner, nm) = rest.split_once(">::")?;
        let (a, b) = inner.split_once(" for ")?;
        (Some(a.trim().to_string()), Some(b.trim().to_string()), nm.to_string())
    } else if let Some((a, b)) = path.split_once("::") {
        (None, Some(a.to_string()), b.to_string())
    } else {
        (None, None, path.to_string())
    };
    for item in &file.items {
        match item {
            syn::Item::Fn(f) if ty.is_none() && !is_test(&f.attrs) && f.sig.ident == name => {
                return Some(Found { self_ty: None, sig: f.sig.clone(), block: (*f.block).clone() });
            }
            syn::Item::Impl(im) if ty.is_some() && !is_test(&im.attrs) => {
                if type_last_ident(&im.self_ty) != *ty.as_ref().unwrap() {
                    continue;
                }
                match (&tr, &im.trait_) {
                    (None, None) => {}
                    (Some(t), Some((_, p, _))) => {
                        let got = norm(&p.to_token_stream().to_string());
                        let last = p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
                        if got != norm(t) && last != *t {
                            continue;
                        }
                    }
                    _ => continue,
                }
                for it in &im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        if f.sig.ident == name && !is_test(&f.attrs) {
                            return Some(Found { self_ty: ty.clone(), sig: f.sig.clone(), block: f.block.clone() });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

// bindings in order of appearance (parameters, let, for, match arms, closures)
struct Binds(Vec<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        // constants and unit variants start with an uppercase letter
        if !s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_field_pat(&mut self, p: &'a syn::FieldPat) {
        self.visit_pat(&p.pat);
    }
}

struct Skel {
    loops: Vec<String>,
    calls: Vec<String>,
}
impl<'a> Visit<'a> for Skel {
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) {
        self.loops.push(norm(&format!("for {} in {}", e.pat.to_token_stream(), e.expr.to_token_stream())));
        syn::visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) {
        self.loops.push(norm(&format!("while {}", e.cond.to_token_stream())));
        syn::visit::visit_expr_while(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        self.loops.push("loop".into());
        syn::visit::visit_expr_loop(self, e);
    }
    fn visit_expr_call(&mut self, e: &'a syn::ExprCall) {
        self.calls.push(norm(&e.func.to_token_stream().to_string()));
        syn::visit::visit_expr_call(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'a syn::ExprMethodCall) {
        self.calls.push(format!(".{}", e.method));
        syn::visit::visit_expr_method_call(self, e);
    }
}

// all loops, in source order, get a marker as their first statement
struct MarkLoops {
    k: usize,
    iters: HashMap<usize, String>,
}
impl VisitMut for MarkLoops {
    fn visit_expr_for_loop_mut(&mut self, e: &mut syn::ExprForLoop) {
        let k = self.k;
        self.k += 1;
        if self.iters.contains_key(&k) {
            let ex = &e.expr;
            let m = syn::Ident::new(&format!("__vx_it_{}", k), proc_macro2::Span::call_site());
            e.expr = syn::parse2(quote! { #m!(#ex) }).unwrap();
        }
        mark(&mut e.body, k);
        self.visit_block_mut(&mut e.body);
    }
    fn visit_expr_while_mut(&mut self, e: &mut syn::ExprWhile) {
        let k = self.k;
        self.k += 1;
        mark(&mut e.body, k);
        self.visit_block_mut(&mut e.body);
    }
    fn visit_expr_loop_mut(&mut self, e: &mut syn::ExprLoop) {
        let k = self.k;
        self.k += 1;
        mark(&mut e.body, k);
        self.visit_block_mut(&mut e.body);
    }
}
fn marker(name: &str) -> syn::Stmt {
    let m = syn::Ident::new(name, proc_macro2::Span::call_site());
    syn::parse2(quote! { #m!(); }).unwrap()
}
fn mark(b: &mut syn::Block, k: usize) {
    b.stmts.insert(0, marker(&format!("__vx_loop_{}", k)));
    b.stmts.push(marker(&format!("__vx_loopend_{}", k)));
}

// before/after loop k: insert markers around the statement that contains loop k directly
struct AroundLoops;
fn loop_index_of_stmt(s: &syn::Stmt) -> Option<usize> {
    let e = match s {
        syn::Stmt::Expr(e, _) => e,
        _ => return None,
    };
    let b = match e {
        syn::Expr::ForLoop(f) => &f.body,
        syn::Expr::While(f) => &f.body,
        syn::Expr::Loop(f) => &f.body,
        _ => return None,
    };
    if let Some(syn::Stmt::Macro(m)) = b.stmts.first() {
        let s = m.mac.path.to_token_stream().to_string();
        return s.strip_prefix("__vx_loop_").and_then(|x| x.parse().ok());
    }
    None
}
impl VisitMut for AroundLoops {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut s);
            if let Some(k) = loop_index_of_stmt(&s) {
                out.push(marker(&format!("__vx_beforeloop_{}", k)));
                let s2 = match s {
                    syn::Stmt::Expr(e, None) => syn::Stmt::Expr(e, None),
                    other => other,
                };
                out.push(s2);
                out.push(marker(&format!("__vx_afterloop_{}", k)));
            } else {
                out.push(s);
            }
        }
        b.stmts = out;
    }
}

// before/after a statement whose token text contains/starts with a pattern
struct AroundStmts {
    pats: Vec<(String, bool, usize, String)>, // normalised pattern, after?, occurrence, marker
    seen: HashMap<usize, usize>,
    hit: Vec<bool>,
}
fn stmt_head_text(s: &syn::Stmt) -> String {
    // text of the statement without the contents of nested blocks
    let t = s.to_token_stream().to_string();
    t
}
fn is_marker(s: &syn::Stmt) -> bool {
    if let syn::Stmt::Macro(m) = s {
        return m.mac.path.to_token_stream().to_string().starts_with("__vx_");
    }
    false
}
impl VisitMut for AroundStmts {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<syn::Stmt> = Vec::new();
        for mut s in std::mem::take(&mut b.stmts) {
            if is_marker(&s) {
                out.push(s);
                continue;
            }
            let text = stmt_head_text(&s);
            let mut befores = Vec::new();
            let mut afters = Vec::new();
            for (idx, (p, after, occ, mk)) in self.pats.iter().enumerate() {
                if text.starts_with(p.as_str()) {
                    let c = self.seen.entry(idx).or_insert(0);
                    if *c == *occ {
                        self.hit[idx] = true;
                        if *after {
                            afters.push(marker(mk));
                        } else {
                            befores.push(marker(mk));
                        }
                    }
                    *c += 1;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.extend(befores);
            out.push(s);
            out.extend(afters);
        }
        b.stmts = out;
    }
}

struct Rename<'a>(&'a HashMap<String, String>);
impl<'a> VisitMut for Rename<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = syn::Ident::new(n, p.ident.span());
        }
        syn::visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.path.segments.len() == 1 {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.0.get(&s.ident.to_string()) {
                s.ident = syn::Ident::new(n, s.ident.span());
            }
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        // struct shorthand { x } keeps the field name
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let toks: TokenStream = m
            .tokens
            .clone()
            .into_iter()
            .map(|t| match t {
                proc_macro2::TokenTree::Ident(i) => {
                    if let Some(n) = self.0.get(&i.to_string()) {
                        proc_macro2::TokenTree::Ident(syn::Ident::new(n, i.span()))
                    } else {
                        proc_macro2::TokenTree::Ident(i)
                    }
                }
                o => o,
            })
            .collect();
        m.tokens = toks;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 5 && args[1] == "sx" {
        if let Err(e) = sx::run(&args[2], &args[3], &args[4]) {
            die(&e);
        }
        return;
    }
    if args.len() == 5 && args[1] == "kx" {
        if let Err(e) = kx::run(&args[2], &args[3], &args[4]) {
            die(&e);
        }
        return;
    }
    if args.len() < 6 || args[1] != "gen" {
        die("usage: vx gen TEMPLATE REPO OUT BASELINE [--update]");
    }
    let tpl_path = &args[2];
    let repo = &args[3];
    let out_path = &args[4];
    let base_path = &args[5];
    let update = args.iter().any(|a| a == "--update");
    let dir = std::path::Path::new(tpl_path).parent().unwrap().to_path_buf();
    let tpl_name = std::path::Path::new(tpl_path).file_name().unwrap().to_string_lossy().to_string();
    let mut text = match fs::read_to_string(tpl_path) {
        Ok(t) => t,
        Err(e) => die(&format!("{}", e)),
    };
    // includes
    loop {
        let mut changed = false;
        let mut o = String::new();
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                match fs::read_to_string(dir.join(f.trim())) {
                    Ok(t) => o.push_str(&t),
                    Err(e) => die(&format!("include {}: {}", f, e)),
                }
                changed = true;
            } else {
                o.push_str(l);
            }
            o.push('\n');
        }
        text = o;
        if !changed {
            break;
        }
    }
    let mut baseline: BTreeMap<String, Value> = fs::read_to_string(base_path)
        .ok()
        .and_then(|t| serde_json::from_str(&t).ok())
        .unwrap_or_default();
    let mut files = Files { repo: repo.clone(), cache: HashMap::new() };
    let mut cfg = Config::default();
    let mut out = String::new();
    let mut report_fns: Vec<Value> = Vec::new();
    let mut lost: Vec<String> = Vec::new();
    let mut notes: Vec<String> = Vec::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(r) = l.strip_prefix("//@mono ") {
            cfg.mono.extend(r.split_whitespace().map(|s| s.to_string()));
        } else if let Some(r) = l.strip_prefix("//@map ") {
            for kv in r.split_whitespace() {
                if let Some((a, b)) = kv.split_once('=') {
                    cfg.map.insert(a.to_string(), b.to_string());
                }
            }
        } else if let Some(r) = l.strip_prefix("//@method ") {
            // //@method name=newname : rename method calls
            for kv in r.split_whitespace() {
                if let Some((a, b)) = kv.split_once('=') {
                    cfg.methods.insert(a.to_string(), b.to_string());
                }
            }
        } else if let Some(r) = l.strip_prefix("//@vectors ") {
            cfg.vec_types.extend(r.split_whitespace().map(|s| s.to_string()));
        } else if let Some(r) = l.strip_prefix("//@notvec ") {
            for f in r.split_whitespace() {
                cfg.vec_fields.remove(f);
            }
        } else if let Some(r) = l.strip_prefix("//@struct ").or(l.strip_prefix("//@enum ")) {
            let mut w = r.split_whitespace();
            let f = w.next().unwrap_or("").to_string();
            let name = w.next().unwrap_or("").to_string();
            let extra: Vec<String> = w.map(|s| s.to_string()).collect();
            match emit_type(&mut files, &f, &name, &extra, &mut cfg) {
                Ok(s) => out.push_str(&s),
                Err(e) => lost.push(e),
            }
            out.push('\n');
        } else if let Some(r) = l.strip_prefix("//@const ") {
            let mut w = r.split_whitespace();
            let f = w.next().unwrap_or("").to_string();
            let name = w.next().unwrap_or("").to_string();
            match emit_const(&mut files, &f, &name, &cfg) {
                Ok(s) => out.push_str(&s),
                Err(e) => lost.push(e),
            }
            out.push('\n');
        } else if let Some(r) = l.strip_prefix("//@fn ") {
            let mut req = FnReq::default();
            // FILE PATH [as NAME] [opts...]; PATH may be <A for B>::c
            let (f, rest) = r.trim().split_once(' ').unwrap_or((r, ""));
            req.file = f.to_string();
            let rest = rest.trim();
            let (p, rest) = if rest.starts_with('<') {
                let end = rest.find(">::").unwrap_or(0);
                let sp = rest[end..].find(' ').map(|x| x + end).unwrap_or(rest.len());
                (&rest[..sp], rest[sp..].trim())
            } else {
                rest.split_once(' ').unwrap_or((rest, ""))
            };
            req.path = p.to_string();
            let mut w = rest.split_whitespace().peekable();
            while let Some(o) = w.next() {
                if o == "as" {
                    req.alias = w.next().map(|s| s.to_string());
                } else {
                    req.opts.push(o.to_string());
                }
            }
            i += 1;
            let mut cur: Option<(String, String)> = None;
            loop {
                if i >= lines.len() {
                    die(&format!("missing //@endfn for {}", req.path));
                }
                let l2 = lines[i].trim();
                if l2 == "//@endfn" {
                    break;
                }
                if let Some(d) = l2.strip_prefix("//@") {
                    if let Some(c) = cur.take() {
                        req.sections.push(c);
                    }
                    cur = Some((d.trim().to_string(), String::new()));
                } else if let Some((_, t)) = cur.as_mut() {
                    t.push_str(lines[i]);
                    t.push('\n');
                }
                i += 1;
            }
            if let Some(c) = cur.take() {
                req.sections.push(c);
            }
            match emit_fn(&mut files, &req, &cfg, &tpl_name, &mut baseline, update, &mut lost, &mut notes) {
                Ok((s, v)) => {
                    out.push_str(&s);
                    report_fns.push(v);
                }
                Err(e) => lost.push(e),
            }
            out.push('\n');
        } else {
            out.push_str(lines[i]);
            out.push('\n');
        }
        i += 1;
    }
    fs::write(out_path, &out).unwrap();
    if update {
        fs::write(base_path, serde_json::to_string_pretty(&baseline).unwrap()).unwrap();
    }
    println!("{}", json!({"functions": report_fns, "lost": lost, "notes": notes}));
}

fn emit_const(files: &mut Files, f: &str, name: &str, cfg: &Config) -> Result<String, String> {
    let file = files.get(f)?;
    for it in &file.items {
        if let syn::Item::Const(c) = it {
            if c.ident == name {
                let mut c = c.clone();
                c.attrs.clear();
                let is_float = type_last_ident(&c.ty) == "f64";
                if let syn::Type::Array(_) = &*c.ty {
                    // a table of numbers: its values are unknown to the proof
                    let mut rw = Rewriter::new(cfg, HashMap::new(), Vec::new());
                    rw.visit_type_mut(&mut c.ty);
                    let (id, ty) = (&c.ident, c.ty.to_token_stream());
                    return Ok(format!("pub uninterp spec fn {id}_spec() -> {ty};\n#[verifier::external_body]\npub fn {id}_c() -> (ret: {ty}) ensures ret == {id}_spec() {{ unimplemented!() }}\n"));
                }
                let mut rw = Rewriter::new(cfg, HashMap::new(), Vec::new());
                rw.visit_type_mut(&mut c.ty);
                rw.visit_expr_mut(&mut c.expr);
                let id = &c.ident;
                let ty = &c.ty;
                let ex = &c.expr;
                if is_float {
                    // a real-valued constant becomes a function with an exact specification
                    return Ok(format!(
                        "pub open spec fn {id}_spec() -> real {{ {} }}\n#[verifier::external_body]\npub fn {id}_c() -> (ret: R) ensures ret@ == {id}_spec() {{ unimplemented!() }}\n",
                        const_spec(ex.to_token_stream().to_string())
                    ));
                }
                return Ok(format!("pub const {}: {} = {};\n", id, ty.to_token_stream(), ex.to_token_stream()));
            }
        }
    }
    Err(format!("constant {} not found in {}", name, f))
}

fn const_spec(s: String) -> String {
    // R :: lit (Ghost (X)) -> X
    let t = norm(&s);
    if let Some(r) = t.strip_prefix("- ") {
        return format!("(0real - {})", const_spec(r.to_string()));
    }
    if let Some(r) = t.strip_prefix("R :: lit (Ghost (") {
        if let Some(x) = r.strip_suffix("))") {
            return x.to_string();
        }
    }
    t
}

fn emit_type(files: &mut Files, f: &str, name: &str, extra: &[String], cfg: &mut Config) -> Result<String, String> {
    let file = files.get(f)?.clone();
    for it in &file.items {
        match it {
            syn::Item::Struct(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.generics = Default::default();
                s.vis = syn::parse_quote!(pub);
                let mut dropped = Vec::new();
                let mut fields_txt = String::new();
                let mut rw = Rewriter::new(cfg, HashMap::new(), Vec::new());
                let mut vec_fields = Vec::new();
                for fl in s.fields.iter_mut() {
                    fl.attrs.clear();
                    fl.vis = syn::parse_quote!(pub);
                    let nm = fl.ident.as_ref().map(|x| x.to_string()).unwrap_or_default();
                    if extra.iter().any(|e| *e == format!("-{}", nm)) {
                        dropped.push(nm);
                        continue;
                    }
                    if let Some(t) = extra.iter().find_map(|e| e.strip_prefix(&format!("{}:", nm))) {
                        // the type of the field is given by the template
                        if cfg.vec_types.iter().any(|v| v == t) {
                            vec_fields.push(nm.clone());
                        }
                        fields_txt.push_str(&format!("    pub {}: {},\n", nm, t));
                        continue;
                    }
                    rw.visit_type_mut(&mut fl.ty);
                    let mut tyname = type_last_ident(&fl.ty);
                    if tyname == "Option" || tyname == "Box" {
                        tyname = String::new();
                    }
                    if cfg.vec_types.contains(&tyname) {
                        vec_fields.push(nm.clone());
                    }
                    fields_txt.push_str(&format!("    pub {}: {},\n", nm, fl.ty.to_token_stream()));
                }
                cfg.vec_fields.extend(vec_fields);
                let derive = extra.iter().find_map(|e| e.strip_prefix("derive=")).map(|d| format!("#[derive({})]\n", d)).unwrap_or_default();
                return Ok(format!("{}pub struct {} {{\n{}}} // dropped fields: {:?}\n", derive, name, fields_txt, dropped));
            }
            syn::Item::Enum(s) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                let mut rw = Rewriter::new(cfg, HashMap::new(), Vec::new());
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    v.discriminant = None;
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                        rw.visit_type_mut(&mut fl.ty);
                    }
                }
                let derive = extra.iter().find_map(|e| e.strip_prefix("derive=")).map(|d| format!("#[derive({})]\n", d)).unwrap_or_default();
                return Ok(format!("{}{}\n", derive, s.to_token_stream()));
            }
            _ => {}
        }
    }
    Err(format!("type {} not found in {}", name, f))
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(
    files: &mut Files,
    req: &FnReq,
    cfg: &Config,
    tpl: &str,
    baseline: &mut BTreeMap<String, Value>,
    update: bool,
    lost: &mut Vec<String>,
    notes: &mut Vec<String>,
) -> Result<(String, Value), String> {
    let file = files.get(&req.file)?;
    let mut found = find_fn(file, &req.path).ok_or(format!("function {} not found in {}", req.path, req.file))?;
    let label = req.alias.clone().unwrap_or_else(|| req.path.clone());
    let key = format!("{}|{}|{}", tpl, req.file, label);
    // 0. strip attributes, no-op statements `let _ = LITERAL;`
    Strip.visit_block_mut(&mut found.block);
    for a in found.sig.inputs.iter_mut() {
        match a {
            syn::FnArg::Typed(p) => p.attrs.clear(),
            syn::FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
    let mut ds = Desugar::new(&req.opts);
    ds.visit_block_mut(&mut found.block);
    ds.signature(&mut found.sig);
    // 1. bindings, alpha-renaming to the recorded names
    let mut b = Binds(vec![]);
    b.visit_signature(&found.sig);
    b.visit_block(&found.block);
    let binds = b.0;
    let rec: Option<Vec<String>> = baseline.get(&key).and_then(|v| serde_json::from_value(v["locals"].clone()).ok());
    if let Some(old) = &rec {
        if !update && *old != binds && old.len() == binds.len() {
            let mut map: HashMap<String, String> = HashMap::new();
            let mut ok = true;
            for (n, o) in binds.iter().zip(old.iter()) {
                if let Some(x) = map.get(n) {
                    if x != o {
                        ok = false;
                    }
                } else {
                    map.insert(n.clone(), o.clone());
                }
            }
            if ok {
                map.retain(|k, v| k != v);
                notes.push(format!("{}: locals renamed {:?}", label, map));
                let mut rn = Rename(&map);
                rn.visit_signature_mut(&mut found.sig);
                rn.visit_block_mut(&mut found.block);
            }
        }
    }
    let mut sk = Skel { loops: vec![], calls: vec![] };
    sk.visit_block(&found.block);
    let body_norm = norm(&found.block.to_token_stream().to_string());
    let sig_norm = norm(&found.sig.to_token_stream().to_string());
    let mut same_loops = true;
    let mut same_body = true;
    let mut new_calls: Vec<String> = vec![];
    if let Some(v) = baseline.get(&key) {
        if !update {
            let ol: Vec<String> = serde_json::from_value(v["loops"].clone()).unwrap_or_default();
            let oc: Vec<String> = serde_json::from_value(v["calls"].clone()).unwrap_or_default();
            same_loops = ol == sk.loops;
            for c in &sk.calls {
                if !oc.contains(c) && !new_calls.contains(c) {
                    new_calls.push(c.clone());
                }
            }
            same_body = v["body"] == json!(body_norm);
        }
    }
    if update {
        baseline.insert(key.clone(), json!({"locals": binds, "loops": sk.loops, "calls": sk.calls, "body": body_norm, "sig": sig_norm}));
    }
    // 2. rewriting
    let mut vec_vars: HashMap<String, ()> = HashMap::new();
    for a in &found.sig.inputs {
        if let syn::FnArg::Typed(p) = a {
            if let syn::Pat::Ident(pi) = &*p.pat {
                let n = type_last_ident(&p.ty);
                let n2 = cfg.map.get(&n).cloned().unwrap_or(n.clone());
                if cfg.vec_types.contains(&n) || cfg.vec_types.contains(&n2) {
                    vec_vars.insert(pi.ident.to_string(), ());
                }
            }
        }
    }
    collect_vec_locals(&found.block, cfg, &mut vec_vars);
    for o in req.opts.iter().filter_map(|o| o.strip_prefix("vec:")) {
        vec_vars.extend(o.split(',').map(|v| (v.to_string(), ())));
    }
    let mut rw = Rewriter::new(cfg, vec_vars, req.opts.clone());
    rw.visit_block_mut(&mut found.block);
    rw.visit_signature_mut(&mut found.sig);
    for u in &rw.unsupported {
        lost.push(format!("{}: unsupported construct: {}", label, u));
    }
    // 3. markers
    let mut iters = HashMap::new();
    let mut patsec: Vec<(String, bool, usize, String)> = vec![];
    for (si, (d, _)) in req.sections.iter().enumerate() {
        let w: Vec<&str> = d.split_whitespace().collect();
        if w.len() >= 4 && w[0] == "loop" && w[2] == "iter" {
            iters.insert(w[1].parse::<usize>().unwrap_or(999), w[3].to_string());
        }
        if (w.first() == Some(&"before") || w.first() == Some(&"after")) && w.get(1) == Some(&"stmt") {
            let q1 = d.find('`').unwrap_or(0);
            let q2 = d.rfind('`').unwrap_or(0);
            let pat = norm(&d[q1 + 1..q2]);
            let occ: usize = d[q2 + 1..].trim().trim_start_matches('#').parse().unwrap_or(0);
            patsec.push((pat, w[0] == "after", occ, format!("__vx_sec_{}", si)));
        }
    }
    let mut ml = MarkLoops { k: 0, iters: iters.clone() };
    ml.visit_block_mut(&mut found.block);
    let nloops = ml.k;
    AroundLoops.visit_block_mut(&mut found.block);
    let np = patsec.len();
    let mut asx = AroundStmts { pats: patsec.clone(), seen: HashMap::new(), hit: vec![false; np] };
    asx.visit_block_mut(&mut found.block);
    for (k, h) in asx.hit.iter().enumerate() {
        if !h {
            lost.push(format!("{}: anchor statement not found: {}", label, patsec[k].0));
        }
    }
    // start / end of the function
    found.block.stmts.insert(0, marker("__vx_start"));
    let has_tail = matches!(found.block.stmts.last(), Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_)));
    let pos = if has_tail { found.block.stmts.len() - 1 } else { found.block.stmts.len() };
    found.block.stmts.insert(pos, marker("__vx_end"));
    // 4. printing
    let mut body = found.block.to_token_stream().to_string();
    let mut spec = String::new();
    let find = |name: &str| -> String {
        req.sections.iter().filter(|(d, _)| d == name).map(|(_, t)| t.clone()).collect::<Vec<_>>().join("\n")
    };
    for (d, t) in &req.sections {
        if d == "spec" {
            spec.push_str(t);
        }
    }
    for k in 0..nloops {
        let inv = find(&format!("loop {}", k));
        let start = find(&format!("loop {} start", k));
        let mk = format!("{{ __vx_loop_{} ! () ;", k);
        if !body.contains(&mk) {
            return Err(format!("{}: internal: loop marker {} lost", label, k));
        }
        body = body.replace(&mk, &format!("\n{}\n{{\n{}\n", inv, start));
        body = body.replace(&format!("__vx_loopend_{} ! () ;", k), &format!("\n{}\n", find(&format!("loop {} end", k))));
        body = body.replace(&format!("__vx_beforeloop_{} ! () ;", k), &format!("\n{}\n", find(&format!("before loop {}", k))));
        body = body.replace(&format!("__vx_afterloop_{} ! () ;", k), &format!("\n{}\n", find(&format!("after loop {}", k))));
        if let Some(it) = iters.get(&k) {
            body = body.replace(&format!("__vx_it_{} !", k), &format!("{} : ", it));
        }
    }
    // directives on loops that do not exist any more
    for (d, _) in &req.sections {
        let w: Vec<&str> = d.split_whitespace().collect();
        let kk = match w.as_slice() {
            ["loop", k, ..] => k.parse::<usize>().ok(),
            ["before", "loop", k] | ["after", "loop", k] => k.parse::<usize>().ok(),
            _ => None,
        };
        if let Some(k) = kk {
            if k >= nloops {
                lost.push(format!("{}: loop {} not found", label, k));
            }
        }
    }
    for (si, (_, t)) in req.sections.iter().enumerate() {
        body = body.replace(&format!("__vx_sec_{} ! () ;", si), &format!("\n{}\n", t));
    }
    body = body.replace("__vx_start ! () ;", &format!("\n{}\n", find("start")));
    body = body.replace("__vx_end ! () ;", &format!("\n{}\n", find("end")));
    let body = pretty(&body);
    let mut sig = found.sig.clone();
    if !req.opts.iter().any(|o| o == "keepgenerics") {
        sig.generics = Default::default();
    }
    if let Some(a) = &req.alias {
        sig.ident = syn::Ident::new(a, sig.ident.span());
    }
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> (ret: {})", t.to_token_stream()),
    };
    sig.output = syn::ReturnType::Default;
    let attrs = find("attr");
    let fn_txt = format!("{}\npub {}{}\n{}\n{}\n", attrs.trim_end(), sig.to_token_stream(), ret, spec, body);
    let ty = found.self_ty.as_ref().map(|t| cfg.map.get(t).cloned().unwrap_or(t.clone()));
    let text = match &ty {
        Some(t) => format!("impl {} {{\n{}}}\n", t, fn_txt),
        None => fn_txt,
    };
    let clauses = spec.matches(',').count();
    let v = json!({
        "file": req.file, "fn": req.path, "as": label, "loops": nloops, "same_loops": same_loops,
        "same_body": same_body, "new_calls": new_calls, "clauses": clauses, "known": rec.is_some(),
    });
    Ok((text, v))
}

fn pretty(s: &str) -> String {
    // line breaks only (for readable verifier messages)
    let mut o = String::with_capacity(s.len() + 200);
    for c in s.chars() {
        o.push(c);
        if c == ';' || c == '{' {
            o.push('\n');
        } else if c == '}' {
            o.push('\n');
        }
    }
    o
}
