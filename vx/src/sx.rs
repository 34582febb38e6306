// Rewrites crate sources so that floating-point numbers become exact symbolic numbers.
//
//   vx sx SPEC REPO OUT
//
// SPEC: {"crates":[{"name","src","files":["*" or paths],"lib":[lines of a replacement lib.rs]|null,
//        "main":[lines of a replacement main.rs]|null,"add":{file: path of a stand-in},"deps":[lines]} | {"use":shared definition}]}
use proc_macro2::{Group, Ident, Literal, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::fs;
use std::path::Path;
use syn::visit_mut::{self, VisitMut};

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg (test)") || s.contains("cfg (doctest)") || s == "# [test]"
    })
}
fn clean(attrs: &mut Vec<syn::Attribute>) {
    let mut out = vec![];
    for a in attrs.drain(..) {
        if a.path().is_ident("doc") {
            continue;
        }
        if a.path().is_ident("derive") {
            let list: Vec<String> = a.meta.require_list().map(|l| l.tokens.to_string()).unwrap_or_default().split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
            if !list.is_empty() {
                let t: TokenStream = list.join(",").parse().unwrap();
                out.push(syn::parse_quote!(#[derive(#t)]));
            }
            continue;
        }
        out.push(a);
    }
    *attrs = out;
}
fn fold(e: &syn::Expr) -> Option<f64> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Float(f) => f.base10_parse::<f64>().ok(),
            syn::Lit::Int(i) if i.suffix() == "f64" => i.base10_digits().parse::<f64>().ok(),
            _ => None,
        },
        syn::Expr::Paren(p) => fold(&p.expr),
        syn::Expr::Group(p) => fold(&p.expr),
        syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => fold(&u.expr).map(|x| -x),
        _ => None,
    }
}

// operators inside constants: const functions of the symbolic numbers
struct InConst;
impl VisitMut for InConst {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let Some(x) = fold(e) {
            *e = syn::Expr::Verbatim(lit(x));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Neg(_)) {
                let x = &u.expr;
                *e = syn::parse_quote!((#x).cneg());
            }
        } else if let syn::Expr::Binary(b) = e {
            let (x, y) = (&b.left, &b.right);
            match b.op {
                syn::BinOp::Add(_) => *e = syn::parse_quote!((#x).cadd(#y)),
                syn::BinOp::Sub(_) => *e = syn::parse_quote!((#x).csub(#y)),
                syn::BinOp::Mul(_) => *e = syn::parse_quote!((#x).cmul(#y)),
                syn::BinOp::Div(_) => *e = syn::parse_quote!((#x).cdiv(#y)),
                _ => (),
            }
        }
    }
}

// records the functions that are executed
struct Enter(String, Vec<String>);
impl VisitMut for Enter {
    fn visit_item_impl_mut(&mut self, i: &mut syn::ItemImpl) {
        self.1.push(i.self_ty.to_token_stream().to_string().replace(' ', ""));
        visit_mut::visit_item_impl_mut(self, i);
        self.1.pop();
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        if f.sig.constness.is_none() {
            let n = format!("{}#{}::{}", self.0, self.1.join("::"), f.sig.ident);
            f.block.stmts.insert(0, syn::parse_quote!(::sym::enter(#n);));
        }
    }
    fn visit_item_fn_mut(&mut self, f: &mut syn::ItemFn) {
        if f.sig.constness.is_none() {
            let n = format!("{}#{}", self.0, f.sig.ident);
            f.block.stmts.insert(0, syn::parse_quote!(::sym::enter(#n);));
        }
    }
}

// casts from a number of either kind to an integer
struct Casts;
impl VisitMut for Casts {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Cast(c) = e {
            let (x, t) = (&c.expr, &c.ty);
            if ["usize", "i32", "i64", "u128"].contains(&t.to_token_stream().to_string().as_str()) {
                *e = syn::parse_quote!(<#t as ::sym::FromSym>::from_sym(::sym::ToSym::to_sym(#x)));
            }
        }
    }
}

struct Pass;
impl VisitMut for Pass {
    fn visit_file_mut(&mut self, f: &mut syn::File) {
        f.attrs.retain(|a| !a.path().is_ident("doc"));
        self.items(&mut f.items);
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut syn::ItemMod) {
        if let Some((_, items)) = &mut m.content {
            self.items(items);
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        clean(a);
    }
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Call(c) = e {
            if c.func.to_token_stream().to_string().replace(' ', "") == "::sym::Sym::lit" {
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Cast(c) = e {
            let ty = c.ty.to_token_stream().to_string();
            let x = &c.expr;
            if ty == "f64" {
                *e = syn::parse_quote!(::sym::ToSym::to_sym(#x));
            }
        } else if let syn::Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Neg(_)) {
                if let syn::Expr::Lit(l) = &*u.expr {
                    if let syn::Lit::Float(f) = &l.lit {
                        let x = -f.base10_parse::<f64>().unwrap();
                        let t = lit(x);
                        *e = syn::Expr::Verbatim(t);
                    }
                }
            }
        }
    }
    fn visit_impl_item_const_mut(&mut self, c: &mut syn::ImplItemConst) {
        InConst.visit_expr_mut(&mut c.expr);
        visit_mut::visit_impl_item_const_mut(self, c);
    }
    fn visit_item_const_mut(&mut self, c: &mut syn::ItemConst) {
        if !["usize", "i32", "u32", "u64", "i64", "u128", "i128", "bool", "& str"].contains(&c.ty.to_token_stream().to_string().as_str()) {
            InConst.visit_expr_mut(&mut c.expr);
        }
        visit_mut::visit_item_const_mut(self, c);
    }
}
impl Pass {
    fn items(&mut self, items: &mut Vec<syn::Item>) {
        items.retain(|i| match i {
            syn::Item::Mod(m) => !is_test(&m.attrs),
            syn::Item::Fn(m) => !is_test(&m.attrs),
            syn::Item::Struct(m) => !is_test(&m.attrs),
            _ => true,
        });
        for i in items.iter_mut() {
            if let syn::Item::ForeignMod(m) = i {
                // foreign numerical kernels become the stand-ins of the same name
                let names: Vec<Ident> = m.items.iter().filter_map(|x| if let syn::ForeignItem::Fn(f) = x { Some(f.sig.ident.clone()) } else { None }).collect();
                *i = syn::parse_quote!(use ::symblas::{#(#names),*};);
            }
        }
    }
}
fn lit(x: f64) -> TokenStream {
    let l = Literal::f64_unsuffixed(x.abs());
    if x < 0.0 {
        quote!((::sym::Sym::lit(-#l)))
    } else {
        quote!((::sym::Sym::lit(#l)))
    }
}
fn tokens(t: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut k = 0;
    while k < v.len() {
        match &v[k] {
            TokenTree::Group(g) => {
                // leave converted literals alone
                let s = g.stream().to_string().replace(' ', "");
                if s.starts_with("::sym::Sym::lit(") {
                    out.extend([v[k].clone()]);
                } else {
                    let mut n = Group::new(g.delimiter(), tokens(g.stream()));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                }
            }
            TokenTree::Ident(i)
                if (i == "std" || i == "core")
                    && k + 3 < v.len()
                    && v[k + 1].to_string() == ":"
                    && v[k + 3].to_string() == "f64" =>
            {
                let s = Span::call_site();
                let (a, b) = (Ident::new("sym", s), Ident::new("std_f64", s));
                out.extend(quote!(::#a::#b));
                k += 3;
            }
            TokenTree::Ident(i) if i == "f64" => {
                let s = Span::call_site();
                let (a, b) = (Ident::new("sym", s), Ident::new("Sym", s));
                out.extend(quote!(::#a::#b));
            }
            TokenTree::Literal(l) => match syn::parse_str::<syn::Lit>(&l.to_string()) {
                Ok(syn::Lit::Float(f)) => out.extend(lit(f.base10_parse::<f64>().unwrap())),
                Ok(syn::Lit::Int(i)) if i.suffix() == "f64" => out.extend(lit(i.base10_digits().parse::<f64>().unwrap())),
                _ => out.extend([v[k].clone()]),
            },
            x => out.extend([x.clone()]),
        }
        k += 1;
    }
    out
}

pub fn convert(text: &str, name: Option<String>, casts: bool) -> Result<String, String> {
    let mut f = syn::parse_file(text).map_err(|e| e.to_string())?;
    if casts {
        Casts.visit_file_mut(&mut f);
    }
    Pass.visit_file_mut(&mut f);
    if let Some(n) = name {
        Enter(n, vec![]).visit_file_mut(&mut f);
    }
    Ok(tokens(f.to_token_stream()).to_string())
}

fn walk(dir: &Path, base: &Path, out: &mut Vec<String>) {
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, base, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p.strip_prefix(base).unwrap().to_string_lossy().to_string());
            }
        }
    }
}

fn put(path: &str, text: &str) {
    if fs::read_to_string(path).map_or(false, |t| t == text) {
        return; // unchanged: no rebuild
    }
    fs::create_dir_all(Path::new(path).parent().unwrap()).unwrap();
    fs::write(path, text).unwrap();
}

pub fn run(spec: &str, repo: &str, out: &str) -> Result<(), String> {
    // {V}: the folder that holds the specifications' folder; {"use": name}: a definition shared by several specifications
    let dir = fs::canonicalize(spec).map_err(|e| e.to_string())?.parent().unwrap().to_path_buf();
    let root = dir.parent().unwrap().to_string_lossy().to_string();
    let load = |p: &Path| -> Result<serde_json::Value, String> {
        let t = fs::read_to_string(p).map_err(|e| format!("{}: {}", p.display(), e))?.replace("{V}", &root);
        serde_json::from_str(&t).map_err(|e| format!("{}: {}", p.display(), e))
    };
    let spec = load(Path::new(spec))?;
    for c in spec["crates"].as_array().unwrap() {
        let shared;
        let c = match c["use"].as_str() {
            Some(n) => {
                shared = load(&dir.join("shared").join(format!("{}.json", n)))?;
                &shared
            }
            None => c,
        };
        let name = c["name"].as_str().unwrap();
        let src = match c["src"].as_str().unwrap() {
            s if s.starts_with('/') => s.to_string(),
            s => format!("{}/{}", repo, s),
        };
        let mut files: Vec<String> = vec![];
        for f in c["files"].as_array().unwrap() {
            if f == "*" {
                walk(Path::new(&src), Path::new(&src), &mut files);
            } else if let Some(d) = f.as_str().unwrap().strip_suffix("/*") {
                walk(&Path::new(&src).join(d), Path::new(&src), &mut files);
            } else {
                files.push(f.as_str().unwrap().to_string());
            }
        }
        if let Some(x) = c["exclude"].as_array() {
            files.retain(|f| !x.iter().any(|e| e == f.as_str() || e.as_str().map_or(false, |d| d.ends_with('/') && f.starts_with(d))));
        }
        for f in &files {
            let text = fs::read_to_string(format!("{}/{}", src, f)).map_err(|e| format!("{}: {}", f, e))?;
            let casts = c["casts"].as_array().map_or(false, |v| v.iter().any(|x| x == f.as_str()));
            let own = c["src"].as_str().unwrap().starts_with('/');
            let t = convert(&text, if own { None } else { Some(format!("{}/{}", c["src"].as_str().unwrap(), f)) }, casts).map_err(|e| format!("{}: {}", f, e))?;
            put(&format!("{}/{}/src/{}", out, name, f), &t);
        }
        if let Some(l) = c["lib"].as_array() {
            let t: Vec<&str> = l.iter().map(|x| x.as_str().unwrap()).collect();
            put(&format!("{}/{}/src/lib.rs", out, name), &t.join("\n"));
        }
        if let Some(l) = c["main"].as_array() {
            let t: Vec<&str> = l.iter().map(|x| x.as_str().unwrap()).collect();
            put(&format!("{}/{}/src/main.rs", out, name), &t.join("\n"));
        }
        for (from, to) in c["add"].as_object().into_iter().flatten() {
            // stand-ins written for the symbolic numbers
            let t = fs::read_to_string(to.as_str().unwrap()).map_err(|e| format!("{}: {}", to, e))?;
            put(&format!("{}/{}/src/{}", out, name, from), &t);
        }
        let deps: Vec<&str> = c["deps"].as_array().map(|v| v.iter().map(|x| x.as_str().unwrap()).collect()).unwrap_or_default();
        let cargo = format!(
            "[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2024\"\n\n[workspace]\n\n[lints.rust]\nunexpected_cfgs = \"allow\"\nwarnings = \"allow\"\n\n[dependencies]\n{}serde = {{ version = \"1.0\", features = [\"derive\"] }}\n{}\n\n[profile.dev]\ndebug = 0\nopt-level = 2\n",
            name,
            if deps.iter().any(|d| d.starts_with("num-traits ")) { "" } else { "num-traits = \"0.2\"\n" },
            deps.join("\n")
        );
        put(&format!("{}/{}/Cargo.toml", out, name), &cargo);
    }
    Ok(())
}
