//! Runs contracts on symbolic numbers: every input is a variable, every execution is explored,
//! every equality is decided as an identity of expressions.
use sym::Sym;

pub type Res = Result<(), String>;

pub struct Gx;

impl Gx {
    pub fn var(&mut self, name: &str) -> Sym {
        sym::fresh(name, false)
    }
    pub fn pos(&mut self, name: &str) -> Sym {
        sym::fresh(name, true)
    }
    pub fn choose(&mut self, what: &str, n: usize) -> usize {
        let k = sym::choose(n);
        sym::note_path(format!("{} = {}", what, k));
        k
    }
    pub fn flag(&mut self, what: &str) -> bool {
        self.choose(what, 2) == 1
    }
    pub fn tol(&mut self, _: Sym) {}
    pub fn same(&mut self, a: Sym, b: Sym, what: &str) -> Res {
        if sym::identical(a, b) {
            return Ok(());
        }
        let d = (a - b).text();
        Err(format!("{}: result minus expected = {}", what, cut(&d)))
    }
    pub fn holds(&mut self, c: bool, what: &str) -> Res {
        sym::count();
        if c { Ok(()) } else { Err(what.to_string()) }
    }
    pub fn same_deriv(&mut self, d: Sym, x: Sym, f: &mut dyn FnMut(Sym) -> Sym, what: &str) -> Res {
        if sym::is_var(x) {
            let y = f(x);
            let w = sym::diff(y, x);
            return self.same(d, w, what);
        }
        let t = sym::fresh("t", false);
        let y = f(t);
        let w = sym::subst(sym::diff(y, t), t, x);
        self.same(d, w, what)
    }
    pub fn small(&mut self, name: &str) -> Sym {
        sym::fresh(name, true)
    }
    pub fn same_at0(&mut self, a: Sym, t: Sym, b: Sym, what: &str) -> Res {
        let a = sym::subst(a, t, Sym::from(0.0));
        self.same(a, b, what)
    }
    pub fn assume_positive(&mut self, x: Sym) -> bool {
        sym::assume_positive(x);
        true
    }
    /// inputs outside of the stated domain
    pub fn symbolic(&self) -> bool {
        true
    }
}
fn cut(s: &str) -> String {
    s.chars().take(400).collect()
}

#[derive(Default)]
pub struct Ctx<'a> {
    list: Vec<(String, Box<dyn Fn(&mut Gx) -> Res + 'a>)>,
}
impl<'a> Ctx<'a> {
    pub fn contract(&mut self, name: &str, f: impl Fn(&mut Gx) -> Res + 'a) {
        self.list.push((name.to_string(), Box::new(f)));
    }
    /// contracts whose code is outside of the symbolic numbers (loops until convergence ..)
    pub fn bounded(&mut self, _: &str, _: impl Fn(&mut Gx) -> Res + 'a) {}
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
pub fn main_with(register: fn(&str, &mut Ctx) -> bool) {
    let args: Vec<String> = std::env::args().collect();
    // PROP --list | PROP CONTRACT PATHS
    let only = args.get(2).cloned();
    let paths = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(20000);
    let mut cx = Ctx::default();
    if !register(&args[1], &mut cx) {
        std::process::exit(3);
    }
    if only.as_deref() == Some("--list") {
        for (name, _) in &cx.list {
            println!("{}", name);
        }
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    for (name, f) in &cx.list {
        if only.as_ref().map_or(false, |o| o != name) {
            continue;
        }
        let t = std::time::Instant::now();
        let o = sym::explore(paths, &|| f(&mut Gx));
        let fail = o.fail.map_or("null".into(), |(m, c)| format!("{{\"message\":\"{}\",\"path\":\"{}\"}}", esc(&m), esc(&c.join("; "))));
        let stuck = o.stuck.map_or("null".into(), |m| format!("\"{}\"", esc(&m)));
        println!("{{\"contract\":\"{}\",\"paths\":{},\"identities\":{},\"generic\":{},\"fail\":{},\"stuck\":{},\"wall_s\":{:.3},\"functions\":[{}]}}", name, o.paths, o.identities, o.generic, fail, stuck, t.elapsed().as_secs_f64(), sym::entered().iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(","));
    }
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
