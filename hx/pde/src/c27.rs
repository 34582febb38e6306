use hx_common::*;
use russell_pde::EquationHandler;

fn check(h: &EquationHandler, n: usize, list: &[usize]) -> Res {
    let mut flag = vec![false; n];
    for p in list {
        flag[*p] = true;
    }
    let u: Vec<usize> = (0..n).filter(|e| !flag[*e]).collect();
    let p: Vec<usize> = (0..n).filter(|e| flag[*e]).collect();
    ck!(h.neq() == n, "neq is {} but {} was given", h.neq(), n);
    ck!(h.nu() == u.len(), "nu() = {} but {} equations are unknown", h.nu(), u.len());
    ck!(h.np() == p.len(), "np() = {} but {} equations are prescribed", h.np(), p.len());
    ck!(h.unknown() == &u, "unknown() = {:?} expected {:?}", h.unknown(), u);
    ck!(h.prescribed() == &p, "prescribed() = {:?} expected {:?}", h.prescribed(), p);
    for e in 0..n {
        ck!(h.is_prescribed(e) == flag[e], "is_prescribed({}) = {}", e, h.is_prescribed(e));
        ck!(h.is_unknown(e) != flag[e], "is_unknown({}) = {}", e, h.is_unknown(e));
        if flag[e] {
            let k = p.iter().position(|x| *x == e).unwrap();
            ck!(h.ip(e) == k, "ip({}) = {} expected {}", e, h.ip(e), k);
        } else {
            let k = u.iter().position(|x| *x == e).unwrap();
            ck!(h.iu(e) == k, "iu({}) = {} expected {}", e, h.iu(e), k);
        }
    }
    Ok(())
}

pub fn register(cx: &mut Ctx) {
    cx.once("exhaustive_small", |_g| {
        // all subsets for up to 6 equations, in both orders, on a fresh and on a reused handler
        for n in 0..=6usize {
            let mut reused = EquationHandler::new(n);
            check(&reused, n, &[])?;
            for mask in 0..(1u32 << n) {
                let mut list: Vec<usize> = (0..n).filter(|e| mask >> e & 1 == 1).collect();
                for round in 0..2 {
                    let mut h = EquationHandler::new(n);
                    h.recompute(&list);
                    check(&h, n, &list).map_err(|m| format!("n={} list={:?}: {}", n, list, m))?;
                    reused.recompute(&list);
                    check(&reused, n, &list).map_err(|m| format!("reused n={} list={:?}: {}", n, list, m))?;
                    if round == 0 {
                        list.reverse();
                    }
                }
            }
        }
        Ok(())
    });
    cx.cases("histories", |g| {
        let n = g.dim(0, 300);
        let mut h = EquationHandler::new(n);
        for _ in 0..g.usize(1, 4) {
            let mut list = g.subset(n);
            if n > 0 {
                for _ in 0..g.usize(0, 3) {
                    let d = g.usize(0, n - 1);
                    list.push(d); // possibly a duplicate
                }
            }
            g.trivial = n == 0;
            note!(g, "EquationHandler::new({}) ... recompute({:?})", n, list);
            h.recompute(&list);
            check(&h, n, &list)?;
        }
        Ok(())
    });
    cx.cases("panics", |g| {
        let n = g.dim(1, 50);
        let mut h = EquationHandler::new(n);
        let before = g.subset(n);
        if g.bool() {
            h.recompute(&before);
        }
        let list = g.subset(n);
        h.recompute(&list);
        note!(g, "earlier list {:?}", before);
        let e = g.usize(0, n - 1);
        note!(g, "n={} list={:?} e={}", n, list, e);
        if list.contains(&e) {
            ck!(panics(|| { h.iu(e); }), "iu({}) of a prescribed equation did not panic", e);
        } else {
            ck!(panics(|| { h.ip(e); }), "ip({}) of an unknown equation did not panic", e);
        }
        let mut bad = list.clone();
        let pos = g.usize(0, bad.len());
        let out = n + g.usize(0, 3);
        bad.insert(pos, out);
        note!(g, "bad list {:?}", bad);
        ck!(panics(|| h.recompute(&bad)), "listing equation {} of {} did not panic", out, n);
        Ok(())
    });
}
