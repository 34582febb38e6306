// Cuts the loop of a function at its invariant so that a bit-precise checker decides it for every number of passes.
//
//   vx kx FILE FUNCTION OUT
//
// `while r >= y { B }` (the only loop of the function) becomes
//   { vx_entry(r, y, x0, y0); r = vx_any(x0); if r >= y { let vx_r = r; B vx_step(vx_r, r, y); } vx_exit(r); }
// with x0, y0 the arguments on entry; everything else of the file is kept, tests are dropped.
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};

struct Cut {
    found: usize,
    other: usize,
    args: Vec<syn::Ident>,
}
impl VisitMut for Cut {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            syn::Expr::While(w) => {
                let new = (|| -> Option<syn::Expr> {
                    let syn::Expr::Binary(b) = &*w.cond else { return None };
                    let syn::BinOp::Ge(_) = b.op else { return None };
                    let (r, y, cond, body) = (&b.left, &b.right, &w.cond, &w.body.stmts);
                    let (x0, y0) = (quote::format_ident!("vx_{}", self.args[0]), quote::format_ident!("vx_{}", self.args[1]));
                    syn::parse2(quote! {{ vx_entry(#r, #y, #x0, #y0); #r = vx_any(#x0); if #cond { let vx_r = #r; { #(#body)* } vx_step(vx_r, #r, #y); } vx_exit(#r); }}).ok()
                })();
                match new {
                    Some(n) => {
                        *e = n;
                        self.found += 1;
                    }
                    None => self.other += 1,
                }
            }
            syn::Expr::ForLoop(_) | syn::Expr::Loop(_) | syn::Expr::Break(_) | syn::Expr::Continue(_) => self.other += 1,
            _ => {}
        }
    }
}

pub fn run(file: &str, name: &str, out: &str) -> Result<(), String> {
    let text = std::fs::read_to_string(file).map_err(|e| e.to_string())?;
    let mut f = syn::parse_file(&text).map_err(|e| e.to_string())?;
    f.items.retain(|i| if let syn::Item::Mod(m) = i { !m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) } else { true });
    let mut done = false;
    for i in &mut f.items {
        if let syn::Item::Fn(g) = i {
            if g.sig.ident == name {
                let args: Vec<syn::Ident> = g
                    .sig
                    .inputs
                    .iter()
                    .filter_map(|a| if let syn::FnArg::Typed(t) = a { if let syn::Pat::Ident(p) = &*t.pat { Some(p.ident.clone()) } else { None } } else { None })
                    .collect();
                if args.len() != 2 {
                    return Err("two arguments expected".to_string());
                }
                let mut c = Cut { found: 0, other: 0, args: args.clone() };
                c.visit_block_mut(&mut g.block);
                if c.found != 1 || c.other != 0 {
                    return Err(format!("the loop of {} has another form", name));
                }
                for (k, a) in args.iter().enumerate() {
                    let v = quote::format_ident!("vx_{}", a);
                    g.block.stmts.insert(k, syn::parse_quote! { let #v = #a; });
                }
                done = true;
            }
        }
    }
    if !done {
        return Err(format!("function {} not found", name));
    }
    std::fs::write(out, format!("use super::{{vx_any, vx_entry, vx_exit, vx_step}};\n{}\n", f.to_token_stream())).map_err(|e| e.to_string())
}
