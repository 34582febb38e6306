//! Executable contracts on the real crates: case generation, bookkeeping, watchdog.
use std::collections::HashSet;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// Source of one case
pub struct Gen {
    state: u64,
    pub size: usize, // suggested size, grows with the case number
    pub idx: u64,
    pub lits: Vec<f64>,
    pub log: String,
    digest: u64,
    pub trivial: bool,
}

impl Gen {
    pub fn new(seed: u64, idx: u64, size: usize, lits: Vec<f64>) -> Self {
        Gen { state: seed, size, idx, lits, log: String::new(), digest: 0, trivial: false }
    }
    pub fn u64(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        let r = mix(self.state);
        self.digest = mix(self.digest ^ r);
        r
    }
    /// inclusive range
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + (self.u64() % ((hi - lo + 1) as u64)) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.u64() % den < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let k = self.usize(0, v.len() - 1);
        &v[k]
    }
    /// small-integer-valued float, exact under a few operations
    pub fn ival(&mut self) -> f64 {
        if !self.lits.is_empty() && self.chance(1, 12) {
            let k = self.usize(0, self.lits.len() - 1);
            return self.lits[k];
        }
        match self.u64() % 8 {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            _ => self.int(-9, 9) as f64,
        }
    }
    /// general real value
    pub fn rval(&mut self) -> f64 {
        if !self.lits.is_empty() && self.chance(1, 12) {
            let k = self.usize(0, self.lits.len() - 1);
            return self.lits[k];
        }
        match self.u64() % 8 {
            0 => 0.0,
            1 => self.int(-3, 3) as f64,
            2 => self.range(-1e3, 1e3),
            3 => self.range(-1e-3, 1e-3),
            _ => self.range(-2.0, 2.0),
        }
    }
    pub fn nz(&mut self) -> f64 {
        loop {
            let x = self.ival();
            if x != 0.0 {
                return x;
            }
        }
    }
    /// size in [lo, hi], small first, sometimes taken from the literals that are new in the source
    pub fn dim(&mut self, lo: usize, hi: usize) -> usize {
        if !self.lits.is_empty() && self.chance(1, 8) {
            let k = self.usize(0, self.lits.len() - 1);
            let l = self.lits[k];
            if l >= 0.0 && l < hi as f64 + 1.0 {
                let l = match self.u64() % 4 {
                    0 => l as i64 * 3 / 2 + 1,
                    1 => l as i64 * 2 + 1,
                    _ => l as i64 + self.int(-1, 2),
                };
                if l >= lo as i64 && l <= hi as i64 {
                    return l as usize;
                }
            }
        }
        if self.chance(1, 20) {
            return self.usize(lo, hi);
        }
        let h = hi.min(lo + self.size);
        self.usize(lo, h)
    }
    /// subset of 0..n in random order, from empty to full
    pub fn subset(&mut self, n: usize) -> Vec<usize> {
        let mut p = self.permutation(n);
        let k = match self.u64() % 6 {
            0 => 0,
            1 => n,
            2 => n.saturating_sub(1),
            _ => self.usize(0, n),
        };
        p.truncate(k);
        p
    }
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = self.usize(0, i);
            p.swap(i, j);
        }
        p
    }
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.log.len() < 6000 {
            let _ = writeln!(self.log, "{}", s.as_ref());
        }
    }
    pub fn digest(&self) -> u64 {
        self.digest
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! note {
    ($g:expr, $($arg:tt)*) => { $g.note(format!($($arg)*)) };
}

struct Sub<'a> {
    name: String,
    f: Box<dyn FnMut(&mut Gen) -> Res + 'a>,
    once: bool,
    weight: u32,
    runs: u64,
    failed: bool,
}

pub struct Ctx<'a> {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    subs: Vec<Sub<'a>>,
    lits: Vec<f64>,
}

static CUR_START: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<(String, u64, u64)> = Mutex::new((String::new(), 0, 0));

pub fn jesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

impl<'a> Ctx<'a> {
    /// sub-check run repeatedly on generated cases
    pub fn cases(&mut self, name: &str, f: impl FnMut(&mut Gen) -> Res + 'a) {
        self.cases_w(name, 1, f)
    }
    pub fn cases_w(&mut self, name: &str, weight: u32, f: impl FnMut(&mut Gen) -> Res + 'a) {
        self.subs.push(Sub { name: name.into(), f: Box::new(f), once: false, weight, runs: 0, failed: false });
    }
    /// sub-check run once (exhaustive enumeration inside)
    pub fn once(&mut self, name: &str, f: impl FnMut(&mut Gen) -> Res + 'a) {
        self.subs.push(Sub { name: name.into(), f: Box::new(f), once: true, weight: 1, runs: 0, failed: false });
    }
}

/// Inputs of a contract shared with the symbolic engine: here every variable is a generated
/// number and every equality is decided up to rounding
pub struct Gx<'b> {
    pub g: &'b mut Gen,
    tol: f64,
    first: bool,
}
impl<'b> Gx<'b> {
    fn value(&mut self) -> f64 {
        let g = &mut *self.g;
        match g.usize(0, 9) {
            0 => 0.0,
            1..=3 => g.int(-4, 4) as f64,
            4 => g.rval(),
            _ => g.range(-3.0, 3.0),
        }
    }
    pub fn var(&mut self, name: &str) -> f64 {
        let mut v = self.value();
        if !(v.abs() < 1e3) {
            v = 1.5;
        }
        self.g.note(format!("{} = {:?}", name, v));
        v
    }
    pub fn pos(&mut self, name: &str) -> f64 {
        let v = if self.g.chance(1, 3) { self.g.int(1, 5) as f64 } else { self.g.range(0.1, 4.0) };
        self.g.note(format!("{} = {:?}", name, v));
        v
    }
    pub fn choose(&mut self, what: &str, n: usize) -> usize {
        // the first choice of a case goes round all possibilities
        let k = if self.first { (self.g.idx % n as u64) as usize } else { self.g.usize(0, n - 1) };
        self.first = false;
        self.g.note(format!("{} = {}", what, k));
        k
    }
    pub fn flag(&mut self, what: &str) -> bool {
        self.choose(what, 2) == 1
    }
    pub fn tol(&mut self, tol: f64) {
        self.tol = tol;
    }
    pub fn same(&mut self, a: f64, b: f64, what: &str) -> Res {
        let t = self.tol * (1.0 + a.abs() + b.abs());
        if (a - b).abs() <= t || a == b || (a.is_nan() && b.is_nan()) {
            return Ok(());
        }
        if !b.is_finite() {
            // the expected value itself is not representable
            return Ok(());
        }
        Err(format!("{}: result {:?}, expected {:?}", what, a, b))
    }
    pub fn holds(&mut self, c: bool, what: &str) -> Res {
        if c { Ok(()) } else { Err(what.to_string()) }
    }
    /// d is the derivative of f at x (Richardson extrapolated central differences)
    pub fn same_deriv(&mut self, d: f64, x: f64, f: &mut dyn FnMut(f64) -> f64, what: &str) -> Res {
        let mut best = f64::NAN;
        let mut err = f64::INFINITY;
        let mut big = 0.0_f64;
        let mut h = 1e-2 * (1.0 + x.abs());
        let mut last = f64::NAN;
        for _ in 0..6 {
            let c = |h: f64, f: &mut dyn FnMut(f64) -> f64| (f(x + h) - f(x - h)) / (2.0 * h);
            let (c1, c2) = (c(h, f), c(h / 2.0, f));
            let e = (4.0 * c2 - c1) / 3.0;
            if (e - last).abs() < err {
                err = (e - last).abs();
                best = e;
            }
            big = big.max(f(x + h).abs() / h * 1e-14);
            last = e;
            h /= 3.0;
        }
        if !best.is_finite() || err > 1e-3 * (1.0 + best.abs()) {
            return Ok(()); // no reliable reference value here
        }
        if (d - best).abs() <= 1e-6 * (1.0 + best.abs()) + 20.0 * err + big {
            return Ok(());
        }
        Err(format!("{}: result {:?}, numerical derivative {:?} (+- {:.1e})", what, d, best, err))
    }
    /// positive and as small as wanted
    pub fn small(&mut self, name: &str) -> f64 {
        let v = *self.g.pick(&[1e-9, 1e-8]);
        self.g.note(format!("{} = {:?}", name, v));
        v
    }
    /// a tends to b when t (from `small`) tends to zero
    pub fn same_at0(&mut self, a: f64, _t: f64, b: f64, what: &str) -> Res {
        self.same(a, b, what)
    }
    /// false: the case is outside of the stated domain
    pub fn assume_positive(&mut self, x: f64) -> bool {
        x > 1e-3
    }
    pub fn symbolic(&self) -> bool {
        false
    }
}
impl<'a> Ctx<'a> {
    pub fn contract(&mut self, name: &str, f: impl Fn(&mut Gx) -> Res + 'a) {
        self.cases_w(name, 1, move |g| f(&mut Gx { g, tol: 1e-9, first: true }))
    }
    pub fn bounded(&mut self, name: &str, f: impl Fn(&mut Gx) -> Res + 'a) {
        self.contract(name, f)
    }
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(seed ^ mix(hash_str(prop) ^ mix(hash_str(sub) ^ mix(idx))))
}

/// main of every harness binary: `hx PROP [--budget SEC] [--replay SUB SEED IDX SIZE]`
pub fn main_with(register: fn(&str, &mut Ctx) -> bool) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_default();
    let env = |k: &str| std::env::var(k).ok();
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse::<i64>().ok()).unwrap_or(0) as u64;
    let thorough = env("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false);
    let lits: Vec<f64> = env("HX_LITS").map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let status_file = env("HX_STATUS").and_then(|f| std::fs::File::create(f).ok());
    let mut budget = if thorough { 120.0 } else { 8.0 };
    let mut replay: Option<(String, u64, u64, usize)> = None;
    let mut k = 2;
    while k < args.len() {
        if args[k] == "--budget" {
            budget = args[k + 1].parse().unwrap();
            k += 2;
        } else if args[k] == "--replay" {
            replay = Some((args[k + 1].clone(), args[k + 2].parse().unwrap(), args[k + 3].parse().unwrap(), args[k + 4].parse().unwrap()));
            k += 5;
        } else {
            k += 1;
        }
    }
    let mut ctx = Ctx { prop: prop.clone(), thorough, seed, subs: vec![], lits: lits.clone() };
    if !register(&prop, &mut ctx) {
        println!("{{\"error\":\"unknown property {}\"}}", jesc(&prop));
        std::process::exit(3);
    }
    // watchdog
    let t_origin = Instant::now();
    let limit_ms: u64 = if thorough { 120_000 } else { 40_000 };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let s = CUR_START.load(Ordering::SeqCst);
        if s > 0 && t_origin.elapsed().as_millis() as u64 > s + limit_ms {
            let c = CUR.lock().unwrap();
            println!(
                "{{\"fail\":{{\"sub\":\"{}\",\"seed\":{},\"idx\":{},\"size\":0,\"message\":\"no answer within {} ms\",\"case\":\"\"}}}}",
                jesc(&c.0), c.1, c.2, limit_ms
            );
            let _ = std::io::stdout().flush();
            std::process::exit(4);
        }
    });
    // panics are reported through the result of the case
    static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|info| {
        let mut s = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        *s = format!("{}", info);
    }));
    let begin = Instant::now();
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut nontrivial = 0u64;
    let mut samples: Vec<(String, String)> = vec![];
    let mut fails = 0;
    let lits_all = ctx.lits.clone();
    let mut run_case = |sub: &mut Sub, idx: u64, cseed: u64, size: usize, verbose: bool| -> bool {
        let mut g = Gen::new(cseed, idx, size, lits_all.clone());
        {
            let mut c = CUR.lock().unwrap();
            *c = (sub.name.clone(), cseed, idx);
        }
        CUR_START.store(t_origin.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        if let Some(f) = &status_file {
            let line = format!("{} {} {} {}", sub.name, cseed, idx, size);
            let _ = std::os::unix::fs::FileExt::write_all_at(f, format!("{:<120}\n", line).as_bytes(), 0);
        }
        let res = catch_unwind(AssertUnwindSafe(|| (sub.f)(&mut g)));
        CUR_START.store(0, Ordering::SeqCst);
        let res = match res {
            Ok(r) => r,
            Err(_) => Err(format!("unexpected panic: {}", LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()))),
        };
        sub.runs += 1;
        evals += 1;
        if distinct.len() < 2_000_000 && distinct.insert(mix(g.digest() ^ hash_str(&sub.name))) && !g.trivial {
            nontrivial += 1;
        }
        if sub.runs == 3 && samples.len() < 12 {
            let mut s = g.log.clone();
            s.truncate(s.char_indices().nth(300).map(|x| x.0).unwrap_or(s.len()));
            samples.push((sub.name.clone(), s));
        }
        match res {
            Ok(()) => {
                if verbose {
                    println!("{{\"replay\":\"ok\",\"case\":\"{}\"}}", jesc(&g.log));
                }
                true
            }
            Err(m) => {
                let mut m = m;
                m.truncate(m.char_indices().nth(3000).map(|x| x.0).unwrap_or(m.len()));
                println!(
                    "{{\"fail\":{{\"sub\":\"{}\",\"seed\":{},\"idx\":{},\"size\":{},\"message\":\"{}\",\"case\":\"{}\"}}}}",
                    jesc(&sub.name), cseed, idx, size, jesc(&m), jesc(&g.log)
                );
                let _ = std::io::stdout().flush();
                false
            }
        }
    };
    if let Some((sub, cs, idx, size)) = replay {
        for s in ctx.subs.iter_mut() {
            if s.name == sub {
                let ok = run_case(s, idx, cs, size, true);
                std::process::exit(if ok { 0 } else { 1 });
            }
        }
        std::process::exit(3);
    }
    let mut subs = std::mem::take(&mut ctx.subs);
    for s in subs.iter_mut().filter(|s| s.once) {
        let cs = case_seed(seed, &prop, &s.name, 0);
        if !run_case(s, 0, cs, 1, false) {
            s.failed = true;
            fails += 1;
        }
    }
    let mut round = 0u64;
    // every sub-check gets an equal share of time (weighted); rounds continue until the budget is used
    let total_w: u32 = subs.iter().filter(|s| !s.once).map(|s| s.weight).sum::<u32>().max(1);
    let t_cases = Instant::now();
    let mut used: Vec<f64> = vec![0.0; subs.len()];
    if subs.iter().any(|s| !s.once) {
        loop {
            let el = t_cases.elapsed().as_secs_f64();
            if el > budget && round >= 3 {
                break;
            }
            if el > budget * 4.0 + 30.0 {
                break;
            }
            let mut any = false;
            for (j, s) in subs.iter_mut().enumerate() {
                if s.once || s.failed {
                    continue;
                }
                any = true;
                let share = budget * s.weight as f64 / total_w as f64;
                if used[j] > share && round >= 3 {
                    continue;
                }
                let t0 = Instant::now();
                for _ in 0..20 {
                    let idx = s.runs;
                    let cs = case_seed(seed, &prop, &s.name, idx);
                    let size = 1 + (idx / 12) as usize % 40;
                    if !run_case(s, idx, cs, size, false) {
                        s.failed = true;
                        fails += 1;
                        break;
                    }
                    if used[j] + t0.elapsed().as_secs_f64() > share && s.runs >= 3 {
                        break;
                    }
                }
                used[j] += t0.elapsed().as_secs_f64();
            }
            round += 1;
            if !any || subs.iter().enumerate().all(|(j, s)| s.once || s.failed || used[j] > budget * s.weight as f64 / total_w as f64) {
                if round >= 3 {
                    break;
                }
            }
        }
    }
    let per: Vec<String> = subs.iter().map(|s| format!("\"{}\":{}", jesc(&s.name), s.runs)).collect();
    let sm: Vec<String> = samples.iter().map(|(n, s)| format!("{{\"sub\":\"{}\",\"case\":\"{}\"}}", jesc(n), jesc(s))).collect();
    println!(
        "{{\"summary\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"fails\":{},\"wall_s\":{:.3},\"subs\":{{{}}},\"samples\":[{}]}}}}",
        evals, nontrivial, fails, begin.elapsed().as_secs_f64(), per.join(","), sm.join(",")
    );
    std::process::exit(if fails > 0 { 1 } else { 0 });
}

/// true if the closure panics
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
