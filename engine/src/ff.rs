//! Theory solver for conjunctions of `t = 0` / `t != 0` over F_p (p the STARK prime).
//!
//! Equations are eliminated one by one through a variable of degree one, splitting on a
//! non-constant coefficient; what is left is decided at a (pseudo-random) point.  "Unsat" is
//! only answered when a constant is contradicted or an eliminated disequation collapses to 0.
use crate::{prf_fe, sym, FE, U256};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum Res {
    Unsat,
    Sat(HashMap<String, U256>),
    Unknown(String),
}
fn is_sym(v: &U256) -> bool {
    sym::is_sym(v)
}
fn zero(v: &U256) -> bool {
    *v == U256::default()
}
fn var_ids(v: &U256) -> BTreeMap<u32, u32> {
    let mut m = BTreeMap::new();
    for (mono, _) in sym::expand(v) {
        for (x, e) in mono {
            let k = m.entry(x).or_insert(0);
            *k = (*k).max(e);
        }
    }
    m
}
pub fn vars_of(v: &U256) -> Vec<String> {
    let mut out = vec![];
    for (x, _) in var_ids(&sym::numerator(v)) {
        match sym::var_info(x) {
            sym::Var::Sym(n) => out.push(n),
            sym::Var::Inv(_) => {}
        }
    }
    out
}
fn fe(v: U256) -> FE {
    FE::from_raw_base(v)
}
/// (coefficient, rest) of a variable of degree one
fn split(v: &U256, x: u32) -> (FE, FE) {
    let c = sym::coefficients_in(v, x);
    (fe(c.get(1).cloned().unwrap_or_default()), fe(c[0]))
}
/// Replaces the variable by num/den (den not zero) and normalises.
fn subst(vs: &[U256], x: u32, num: &FE, den: &FE) -> Vec<U256> {
    vs.iter()
        .map(|v| {
            if !is_sym(v) || !var_ids(v).contains_key(&x) {
                return *v;
            }
            let c = sym::coefficients_in(v, x);
            let d = c.len() - 1;
            let mut acc = FE::zero();
            let mut np = vec![FE::one()];
            let mut dp = vec![FE::one()];
            for i in 0..d {
                np.push(np[i] * *num);
                dp.push(dp[i] * *den);
            }
            for (i, k) in c.iter().enumerate() {
                acc = acc + fe(*k) * np[i] * dp[d - i];
            }
            sym::zero_atom(acc.value())
        })
        .collect()
}
/// Decides a conjunction; inverted values are assumed non-zero by putting them in `neqs`.
pub fn solve(eqs: &[U256], neqs: &[U256]) -> Res {
    let limit = std::env::var("FF_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
    DEADLINE.with(|d| d.set(Some(std::time::Instant::now() + std::time::Duration::from_secs(limit))));
    let e: Vec<U256> = eqs.iter().map(sym::zero_atom).collect();
    let n: Vec<U256> = neqs.iter().map(sym::zero_atom).collect();
    // a symbol has one name: register inverse atoms' denominators as disequations is the caller's job
    go(e, n, 0)
}
/// (variable, root) of a short disequation that is linear with a constant coefficient
fn linear_roots(neqs: &[U256]) -> Vec<(u32, FE)> {
    let mut out = vec![];
    for n in neqs {
        if sym::expand(n).len() > 12 {
            continue;
        }
        for (x, d) in var_ids(n) {
            if d == 1 && matches!(sym::var_info(x), sym::Var::Sym(_)) {
                let (k, r) = split(n, x);
                if !is_sym(k.value()) {
                    out.push((x, -(r * k.inv())));
                    break;
                }
            }
        }
    }
    out
}
/// Divides out the factors that are known not to vanish.
fn strip(v: &U256, roots: &[(u32, FE)]) -> U256 {
    let mut v = *v;
    for (x, root) in roots {
        loop {
            if !is_sym(&v) || sym::expand(&v).len() > 1500 || !var_ids(&v).contains_key(x) {
                break;
            }
            let c = sym::coefficients_in(&v, *x);
            // synthetic division by x - root
            let mut q = vec![FE::zero(); c.len()];
            let mut carry = FE::zero();
            for i in (0..c.len()).rev() {
                carry = carry * *root + fe(c[i]);
                q[i] = carry;
            }
            if !zero(q[0].value()) {
                break;
            }
            let xv = sym::symbol(&sym::var_name(*x));
            let mut acc = FE::zero();
            for i in (1..q.len()).rev() {
                acc = acc * xv + q[i];
            }
            v = sym::zero_atom(acc.value());
        }
    }
    v
}
thread_local! { static DEADLINE: std::cell::Cell<Option<std::time::Instant>> = const { std::cell::Cell::new(None) }; }
fn go(mut eqs: Vec<U256>, mut neqs: Vec<U256>, depth: u32) -> Res {
    let mut defs: Vec<(String, FE, FE)> = vec![];
    loop {
        if DEADLINE.with(|d| d.get()).map_or(false, |d| std::time::Instant::now() > d) {
            return Res::Unknown("out of time".into());
        }
        eqs.sort_by_key(|v| v.limbs);
        eqs.dedup();
        neqs.sort_by_key(|v| v.limbs);
        neqs.dedup();
        let known = linear_roots(&neqs);
        for e in eqs.iter_mut() {
            *e = strip(e, &known);
        }
        if eqs.iter().any(|v| !is_sym(v) && !zero(v)) {
            return Res::Unsat;
        }
        eqs.retain(is_sym);
        if neqs.iter().any(zero) || eqs.iter().any(|e| neqs.contains(e)) {
            return Res::Unsat;
        }
        neqs.retain(is_sym);
        if eqs.is_empty() {
            break;
        }
        // pick an equation and a variable of degree one, preferring constant coefficients
        let mut best: Option<(usize, usize, u32, FE, FE)> = None; // cost, eq, var
        for (i, e) in eqs.iter().enumerate() {
            let terms = sym::expand(e).len();
            for (x, d) in var_ids(e) {
                if d != 1 || terms > 4000 {
                    continue;
                }
                let (c, r) = split(e, x);
                let cv = *c.value();
                let cost = if !is_sym(&cv) {
                    terms
                } else if neqs.contains(&sym::zero_atom(&cv)) || !is_sym(&strip(&sym::zero_atom(&cv), &known)) {
                    100_000 + terms * sym::expand(&cv).len()
                } else {
                    10_000_000 + terms * sym::expand(&cv).len()
                };
                if best.as_ref().map_or(true, |b| cost < b.0) {
                    best = Some((cost, i, x, c, r));
                }
            }
        }
        let Some((cost, i, x, c, r)) = best else {
            // one variable alone: find its roots
            for (i, e) in eqs.iter().enumerate() {
                let vs = var_ids(e);
                if vs.len() == 1 {
                    let (x, _) = vs.into_iter().next().unwrap();
                    let name = sym::var_name(x);
                    let roots = roots(e);
                    let mut unknown = None;
                    for root in roots {
                        let mut rest = eqs.clone();
                        rest.remove(i);
                        let e2 = subst(&rest, x, &fe(root), &FE::one());
                        let n2 = subst(&neqs, x, &fe(root), &FE::one());
                        match go(e2, n2, depth + 1) {
                            Res::Sat(mut m) => {
                                m.insert(name.clone(), root);
                                return back(defs, m);
                            }
                            Res::Unknown(u) => unknown = Some(u),
                            Res::Unsat => {}
                        }
                    }
                    return match unknown {
                        Some(u) => Res::Unknown(u),
                        None => Res::Unsat,
                    };
                }
            }
            // a guess for one variable can still give a model
            if depth < 12 {
                let x = *var_ids(&eqs[0]).keys().next().unwrap();
                let name = sym::var_name(x);
                for k in 0..3u64 {
                    let v = if k == 0 { FE::one() } else { prf_fe("guess", depth as u64 * 16 + k) };
                    if let Res::Sat(mut m) = go(subst(&eqs, x, &v, &FE::one()), subst(&neqs, x, &v, &FE::one()), depth + 1) {
                        m.insert(name, *v.value());
                        return back(defs, m);
                    }
                }
            }
            return Res::Unknown("an equation without a variable of degree one".into());
        };
        let name = sym::var_name(x);
        if cost >= 10_000_000 {
            // case split on the coefficient
            if depth >= 24 {
                return Res::Unknown("too many case splits".into());
            }
            let ca = sym::zero_atom(c.value());
            let mut n1 = neqs.clone();
            n1.push(ca);
            let first = go(eqs.clone(), n1, depth + 1);
            if let Res::Sat(m) = first {
                return back(defs, m);
            }
            let mut e2 = eqs.clone();
            e2.remove(i);
            e2.push(ca);
            e2.push(sym::zero_atom(r.value()));
            return match (first, go(e2, neqs, depth + 1)) {
                (_, Res::Sat(m)) => back(defs, m),
                (Res::Unsat, Res::Unsat) => Res::Unsat,
                (Res::Unknown(u), _) | (_, Res::Unknown(u)) => Res::Unknown(u),
                _ => unreachable!(),
            };
        }
        eqs.remove(i);
        let num = -r;
        eqs = subst(&eqs, x, &num, &c);
        neqs = subst(&neqs, x, &num, &c);
        neqs.push(sym::zero_atom(c.value()));
        defs.push((name, num, c));
    }
    // only disequations are left
    for attempt in 0..4u64 {
        let mut m: HashMap<String, U256> = HashMap::new();
        let mut k = 0;
        for v in neqs.iter() {
            for n in vars_of(v) {
                k += 1;
                m.entry(n.clone()).or_insert_with(|| *prf_fe(&n, attempt * 1000 + k).value());
            }
        }
        let ok = neqs.iter().all(|v| {
            sym::eval(v, &|n| m.get(n).cloned().unwrap_or_default()).map_or(false, |x| !zero(&x))
        });
        if ok {
            return back(defs, m);
        }
    }
    Res::Unknown("no model found for the disequations".into())
}
fn back(defs: Vec<(String, FE, FE)>, mut m: HashMap<String, U256>) -> Res {
    for (n, num, den) in defs.into_iter().rev() {
        // free variables of the definition get pseudo-random values
        for f in free_vars(num.value()).into_iter().chain(free_vars(den.value())) {
            m.entry(f.clone()).or_insert_with(|| *prf_fe(&f, 0).value());
        }
        let get = |x: &str| m.get(x).cloned().unwrap_or_default();
        let v = match (sym::eval(num.value(), &get), sym::eval(den.value(), &get)) {
            (Some(a), Some(b)) if !zero(&b) => crate::stark::mul(&a, &crate::stark::inv(&b)),
            _ => return Res::Unknown("a division by zero in the model".into()),
        };
        m.insert(n, v);
    }
    Res::Sat(m)
}
/// All symbols of a term, those under inverses included.
pub fn free_vars(v: &U256) -> Vec<String> {
    let mut out = vec![];
    if !is_sym(v) {
        return out;
    }
    let mut todo = vec![*v];
    let mut seen = std::collections::HashSet::new();
    while let Some(t) = todo.pop() {
        for (x, _) in var_ids(&t) {
            if seen.insert(x) {
                match sym::var_info(x) {
                    sym::Var::Sym(n) => out.push(n),
                    sym::Var::Inv(d) => todo.push(sym::terms_value(&d)),
                }
            }
        }
    }
    out.sort();
    out
}
// ---- roots of a univariate polynomial over F_p
type P = Vec<FE>;
fn trim(mut a: P) -> P {
    while a.last().map_or(false, |x| *x == FE::zero()) {
        a.pop();
    }
    a
}
fn rem(mut a: P, b: &P) -> P {
    let li = b.last().unwrap().inv();
    while a.len() >= b.len() {
        let k = *a.last().unwrap() * li;
        let off = a.len() - b.len();
        for (i, x) in b.iter().enumerate() {
            a[off + i] = a[off + i] - k * *x;
        }
        a = trim(a);
        if a.is_empty() {
            break;
        }
    }
    a
}
fn divq(mut a: P, b: &P) -> P {
    let li = b.last().unwrap().inv();
    let mut q = vec![FE::zero(); a.len().saturating_sub(b.len()) + 1];
    while a.len() >= b.len() {
        let k = *a.last().unwrap() * li;
        let off = a.len() - b.len();
        q[off] = k;
        for (i, x) in b.iter().enumerate() {
            a[off + i] = a[off + i] - k * *x;
        }
        a = trim(a);
        if a.is_empty() {
            break;
        }
    }
    trim(q)
}
fn mulp(a: &P, b: &P, m: &P) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![FE::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + *x * *y;
        }
    }
    rem(trim(r), m)
}
fn powp(base: &P, e: &U256, m: &P) -> P {
    let mut r = vec![FE::one()];
    for limb in e.limbs.iter() {
        for b in (0..64).rev() {
            r = mulp(&r, &r, m);
            if (limb >> b) & 1 == 1 {
                r = mulp(&r, base, m);
            }
        }
    }
    r
}
fn gcd(a: P, b: P) -> P {
    let (mut a, mut b) = (trim(a), trim(b));
    while !b.is_empty() {
        let r = rem(a, &b);
        a = b;
        b = r;
    }
    a
}
fn roots(e: &U256) -> Vec<U256> {
    let mut co: BTreeMap<u32, FE> = BTreeMap::new();
    for (m, k) in sym::expand(e) {
        co.insert(m.first().map_or(0, |x| x.1), fe(k));
    }
    let d = *co.keys().last().unwrap();
    let f: P = (0..=d).map(|i| co.get(&i).cloned().unwrap_or(FE::zero())).collect();
    let pm1 = *(-FE::one()).value();
    let p = {
        // p = (p-1) + 1; the exponent x^p = x^(p-1) * x
        pm1
    };
    let x: P = vec![FE::zero(), FE::one()];
    let xr = rem(x.clone(), &f);
    let mut xp = mulp(&powp(&xr, &p, &f), &xr, &f);
    xp.resize(xp.len().max(2), FE::zero());
    xp[1] = xp[1] - FE::one();
    let g = gcd(f, trim(xp));
    let mut out = vec![];
    split_roots(g, &pm1, &mut out, 0);
    out
}
fn split_roots(g: P, pm1: &U256, out: &mut Vec<U256>, n: u64) {
    if g.len() <= 1 {
        return;
    }
    if g.len() == 2 {
        out.push(*(-(g[0] * g[1].inv())).value());
        return;
    }
    let half = U256::from_limbs({
        let l = pm1.limbs;
        [l[0] >> 1, (l[1] >> 1) | (l[0] << 63), (l[2] >> 1) | (l[1] << 63), (l[3] >> 1) | (l[2] << 63)]
    });
    for k in 0..60 {
        let base = vec![prf_fe("cz", n * 64 + k), FE::one()];
        let mut h = powp(&rem(base, &g), &half, &g);
        if h.is_empty() {
            continue;
        }
        h[0] = h[0] - FE::one();
        let d = gcd(g.clone(), trim(h));
        if d.len() > 1 && d.len() < g.len() {
            let q = divq(g, &d);
            split_roots(d, pm1, out, n * 2 + 1);
            split_roots(q, pm1, out, n * 2 + 2);
            return;
        }
    }
}
