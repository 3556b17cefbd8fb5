//! Symbolic values of the STARK field: multivariate polynomials over F_p in normal form,
//! hash-consed.  A value of the field's representation type is either a canonical constant or
//! a tagged index into the thread-local table below, so the code under test runs unchanged.
//!
//! * `+ - *` build normal forms; constants fold.
//! * `inv` of a non-constant introduces an inverse atom; the assumption "the argument is not
//!   zero" is recorded in `assumed_nonzero`.
//! * `==` clears inverse atoms and asks `decide` unless the answer is syntactic.
use crate::field::element::FieldElement;
use crate::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use crate::field::fields::montgomery_backed_prime_fields::stark;
use crate::unsigned_integer::element::{UnsignedInteger, U256};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type FE = FieldElement<Stark252PrimeField>;

const TAG0: u64 = 0x07ff_ffa5_a500_0000;
const TAG1: u64 = 0x5359_4d42_4f4c_5a5a;
const IDX_MASK: u64 = 0x00ff_ffff;

pub fn tag(id: u64) -> U256 {
    U256::from_limbs([TAG0, TAG1, 0, id])
}
#[inline]
pub fn is_sym(v: &U256) -> bool {
    v.limbs[1] == TAG1 && (v.limbs[0] & !IDX_MASK) == TAG0
}
/// Normalises a value read back from bytes (the low 24 bits of the first limb may carry a query index).
pub fn untag<const N: usize>(v: UnsignedInteger<N>) -> UnsignedInteger<N> {
    let mut v = v;
    if N == 4 && v.limbs[1] == TAG1 && (v.limbs[0] & !IDX_MASK) == TAG0 {
        v.limbs[0] = TAG0;
    }
    v
}
/// The 32 bytes of a symbol, with a query index placed in the first 8 bytes.
pub fn tagged_bytes(v: &FE, index: u64) -> [u8; 32] {
    let mut l = v.value().limbs;
    if is_sym(v.value()) {
        l[0] |= index & IDX_MASK;
    }
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&l[i].to_be_bytes());
    }
    b
}

pub type Mono = u32; // 0 is the constant monomial
pub type Terms = Vec<(Mono, U256)>;

#[derive(Clone, Debug)]
pub enum Var {
    Sym(String),
    Inv(Rc<Terms>),
}

struct Ctx {
    vars: Vec<Var>,
    var_by_name: HashMap<String, u32>,
    inv_by_poly: HashMap<u64, u32>,
    monos: Vec<Rc<Vec<(u32, u32)>>>,
    mono_ids: HashMap<Rc<Vec<(u32, u32)>>, Mono>,
    mono_mul: HashMap<(Mono, Mono), Mono>,
    polys: Vec<Rc<Terms>>,
    poly_ids: HashMap<Rc<Terms>, u64>,
    assumed_nonzero: Vec<u64>,
    max_terms: usize,
}
impl Ctx {
    fn new() -> Self {
        let unit = Rc::new(vec![]);
        let mut c = Ctx {
            vars: vec![],
            var_by_name: HashMap::new(),
            inv_by_poly: HashMap::new(),
            monos: vec![unit.clone()],
            mono_ids: HashMap::new(),
            mono_mul: HashMap::new(),
            polys: vec![],
            poly_ids: HashMap::new(),
            assumed_nonzero: vec![],
            max_terms: 0,
        };
        c.mono_ids.insert(unit, 0);
        c
    }
    fn mono(&mut self, m: Vec<(u32, u32)>) -> Mono {
        if let Some(i) = self.mono_ids.get(&m) {
            return *i;
        }
        let r = Rc::new(m);
        let id = self.monos.len() as Mono;
        self.monos.push(r.clone());
        self.mono_ids.insert(r, id);
        id
    }
    fn mul_mono(&mut self, a: Mono, b: Mono) -> Mono {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(m) = self.mono_mul.get(&k) {
            return *m;
        }
        let (x, y) = (self.monos[a as usize].clone(), self.monos[b as usize].clone());
        let mut r: Vec<(u32, u32)> = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i].0 < y[j].0) {
                r.push(x[i]);
                i += 1;
            } else if i == x.len() || y[j].0 < x[i].0 {
                r.push(y[j]);
                j += 1;
            } else {
                r.push((x[i].0, x[i].1 + y[j].1));
                i += 1;
                j += 1;
            }
        }
        let m = self.mono(r);
        self.mono_mul.insert(k, m);
        m
    }
    fn poly(&mut self, t: Terms) -> U256 {
        if t.is_empty() {
            return U256::default();
        }
        if t.len() == 1 && t[0].0 == 0 {
            return t[0].1;
        }
        if t.len() > self.max_terms {
            self.max_terms = t.len();
            if t.len() > 3_000_000 {
                panic!("SYM_LIMIT: a polynomial has more than 3000000 terms");
            }
        }
        if let Some(i) = self.poly_ids.get(&t) {
            return tag(*i);
        }
        let r = Rc::new(t);
        let id = self.polys.len() as u64;
        self.polys.push(r.clone());
        self.poly_ids.insert(r, id);
        tag(id)
    }
    fn terms(&self, v: &U256) -> Rc<Terms> {
        if is_sym(v) {
            self.polys[v.limbs[3] as usize].clone()
        } else if *v == U256::default() {
            Rc::new(vec![])
        } else {
            Rc::new(vec![(0, *v)])
        }
    }
    fn mul_terms(&mut self, a: &Terms, b: &Terms) -> Terms {
        if a.len() == 1 && a[0].0 == 0 {
            return b.iter().map(|(m, c)| (*m, stark::mul(c, &a[0].1))).collect();
        }
        if b.len() == 1 && b[0].0 == 0 {
            return a.iter().map(|(m, c)| (*m, stark::mul(c, &b[0].1))).collect();
        }
        let mut acc: HashMap<Mono, U256> = HashMap::with_capacity(a.len() * b.len());
        for (ma, ca) in a {
            for (mb, cb) in b {
                let m = self.mul_mono(*ma, *mb);
                let p = stark::mul(ca, cb);
                acc.entry(m).and_modify(|c| *c = stark::add(c, &p)).or_insert(p);
            }
        }
        let mut t: Terms = acc.into_iter().filter(|(_, c)| *c != U256::default()).collect();
        t.sort_unstable_by_key(|x| x.0);
        t
    }
}
fn merge(a: &Terms, b: &Terms, sub: bool) -> Terms {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    let z = U256::default();
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
            r.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j].0 < a[i].0 {
            let c = if sub { stark::sub(&z, &b[j].1) } else { b[j].1 };
            r.push((b[j].0, c));
            j += 1;
        } else {
            let c = if sub { stark::sub(&a[i].1, &b[j].1) } else { stark::add(&a[i].1, &b[j].1) };
            if c != z {
                r.push((a[i].0, c));
            }
            i += 1;
            j += 1;
        }
    }
    r
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
    static DECIDE: RefCell<Option<Rc<dyn Fn(&U256) -> bool>>> = RefCell::new(None);
    static CONCRETIZE: RefCell<Option<Rc<dyn Fn(&U256) -> U256>>> = RefCell::new(None);
}

/// Forgets every symbol.
pub fn reset() {
    CTX.with(|c| *c.borrow_mut() = Ctx::new());
}
pub fn add(a: &U256, b: &U256) -> U256 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let t = merge(&c.terms(a), &c.terms(b), false);
        c.poly(t)
    })
}
pub fn sub(a: &U256, b: &U256) -> U256 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let t = merge(&c.terms(a), &c.terms(b), true);
        c.poly(t)
    })
}
pub fn mul(a: &U256, b: &U256) -> U256 {
    if *a == U256::default() || *b == U256::default() {
        return U256::default();
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let (x, y) = (c.terms(a), c.terms(b));
        let t = c.mul_terms(&x, &y);
        c.poly(t)
    })
}
/// (leading coefficient, monic multiple).  The leading term is the one with the greatest monomial id.
fn monic(t: &Terms) -> (U256, Terms) {
    let lc = t.last().unwrap().1;
    let li = stark::inv(&lc);
    (lc, t.iter().map(|(m, c)| (*m, stark::mul(c, &li))).collect())
}
pub fn inv(a: &U256) -> U256 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let t = c.terms(a);
        let (lc, m) = monic(&t);
        let mv = c.poly(m.clone());
        let id = mv.limbs[3];
        let var = match c.inv_by_poly.get(&id) {
            Some(v) => *v,
            None => {
                let v = c.vars.len() as u32;
                c.vars.push(Var::Inv(Rc::new(m)));
                c.inv_by_poly.insert(id, v);
                c.assumed_nonzero.push(id);
                v
            }
        };
        let mono = c.mono(vec![(var, 1)]);
        c.poly(vec![(mono, stark::inv(&lc))])
    })
}
/// The symbol with this name (created on first use).
pub fn symbol(name: &str) -> FE {
    let v = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let var = match c.var_by_name.get(name) {
            Some(v) => *v,
            None => {
                let v = c.vars.len() as u32;
                c.vars.push(Var::Sym(name.to_string()));
                c.var_by_name.insert(name.to_string(), v);
                v
            }
        };
        let m = c.mono(vec![(var, 1)]);
        c.poly(vec![(m, U256::from(1u64))])
    });
    FE::from_raw_base(v)
}
/// Numerator after clearing every inverse atom (zero iff the value is zero, given the
/// recorded non-zero assumptions).
pub fn numerator(v: &U256) -> U256 {
    if !is_sym(v) {
        return *v;
    }
    let mut cur = *v;
    loop {
        // the youngest inverse atom present; atoms only contain older ones
        let found = CTX.with(|c| {
            let c = c.borrow();
            let t = c.terms(&cur);
            let mut best: Option<u32> = None;
            for (m, _) in t.iter() {
                for (v, _) in c.monos[*m as usize].iter() {
                    if matches!(c.vars[*v as usize], Var::Inv(_)) && best.map_or(true, |b| *v > b) {
                        best = Some(*v);
                    }
                }
            }
            best
        });
        let Some(var) = found else { return cur };
        cur = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let t = c.terms(&cur);
            let den = match &c.vars[var as usize] {
                Var::Inv(d) => d.clone(),
                _ => unreachable!(),
            };
            let mut by_exp: BTreeMap<u32, Terms> = BTreeMap::new();
            for (m, k) in t.iter() {
                let mono = c.monos[*m as usize].clone();
                let e = mono.iter().find(|x| x.0 == var).map_or(0, |x| x.1);
                let rest: Vec<(u32, u32)> = mono.iter().filter(|x| x.0 != var).cloned().collect();
                let r = c.mono(rest);
                by_exp.entry(e).or_default().push((r, *k));
            }
            let maxe = *by_exp.keys().last().unwrap();
            let mut acc: Terms = vec![];
            let mut pow: Terms = vec![(0, U256::from(1u64))];
            for k in 0..=maxe {
                // exponent e = maxe - k is multiplied by den^k
                if let Some(ts) = by_exp.get(&(maxe - k)) {
                    let mut ts = ts.clone();
                    ts.sort_unstable_by_key(|x| x.0);
                    let p = c.mul_terms(&ts, &pow);
                    acc = merge(&acc, &p, false);
                }
                if k < maxe {
                    pow = c.mul_terms(&pow, &den);
                }
            }
            c.poly(acc)
        });
        if !is_sym(&cur) {
            return cur;
        }
    }
}
/// Canonical form of "v = 0": monic numerator; constants normalise to 0 or 1.
pub fn zero_atom(v: &U256) -> U256 {
    let n = numerator(v);
    if !is_sym(&n) {
        return if n == U256::default() { n } else { U256::from(1u64) };
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let t = c.terms(&n);
        let m = monic(&t).1;
        c.poly(m)
    })
}
thread_local! {
    static IDENTITIES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// How many comparisons of terms the normal forms have decided.
pub fn identities() -> u64 {
    IDENTITIES.with(|n| n.get())
}
fn decided(a: &U256, b: &U256) {
    if is_sym(a) || is_sym(b) {
        IDENTITIES.with(|n| n.set(n.get() + 1));
    }
}
pub fn eq(a: &U256, b: &U256) -> bool {
    if a == b {
        decided(a, b);
        return true;
    }
    let d = zero_atom(&sub(a, b));
    if !is_sym(&d) {
        decided(a, b);
        return d == U256::default();
    }
    let f = DECIDE.with(|d| d.borrow().clone());
    match f {
        Some(f) => f(&d),
        None => false, // distinct normal forms: different for generic values of the symbols
    }
}
/// Installs the procedure that decides "atom = 0" for a non-syntactic atom.
pub fn set_decide(f: Option<Rc<dyn Fn(&U256) -> bool>>) {
    DECIDE.with(|d| *d.borrow_mut() = f);
}
pub fn set_concretize(f: Option<Rc<dyn Fn(&U256) -> U256>>) {
    CONCRETIZE.with(|d| *d.borrow_mut() = f);
}
pub fn concretize(v: &U256) -> U256 {
    let f = CONCRETIZE.with(|d| d.borrow().clone());
    match f {
        Some(f) => f(v),
        None => panic!("SYM_UNSUPPORTED: the integer representative of a symbolic field element was asked for"),
    }
}
/// Monomials (variable, exponent) with their coefficients.
pub fn expand(v: &U256) -> Vec<(Vec<(u32, u32)>, U256)> {
    CTX.with(|c| {
        let c = c.borrow();
        c.terms(v).iter().map(|(m, k)| ((*c.monos[*m as usize]).clone(), *k)).collect()
    })
}
/// Coefficients of a term, seen as a polynomial in one variable (lowest exponent first).
pub fn coefficients_in(v: &U256, var: u32) -> Vec<U256> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let t = c.terms(v);
        let mut by: BTreeMap<u32, Terms> = BTreeMap::new();
        for (m, k) in t.iter() {
            let mono = c.monos[*m as usize].clone();
            match mono.iter().position(|x| x.0 == var) {
                None => by.entry(0).or_default().push((*m, *k)),
                Some(i) => {
                    let e = mono[i].1;
                    let mut rest = (*mono).clone();
                    rest.remove(i);
                    let r = c.mono(rest);
                    by.entry(e).or_default().push((r, *k));
                }
            }
        }
        let d = by.keys().last().cloned().unwrap_or(0);
        (0..=d)
            .map(|e| {
                let mut t = by.remove(&e).unwrap_or_default();
                t.sort_unstable_by_key(|x| x.0);
                c.poly(t)
            })
            .collect()
    })
}
pub fn var_info(i: u32) -> Var {
    CTX.with(|c| c.borrow().vars[i as usize].clone())
}
pub fn var_name(i: u32) -> String {
    match var_info(i) {
        Var::Sym(s) => s,
        Var::Inv(_) => format!("inv{}", i),
    }
}
pub fn terms_value(t: &Terms) -> U256 {
    CTX.with(|c| c.borrow_mut().poly(t.clone()))
}
/// The values assumed non-zero because the code inverted them.
pub fn assumed_nonzero() -> Vec<U256> {
    CTX.with(|c| c.borrow().assumed_nonzero.iter().map(|i| tag(*i)).collect())
}
pub fn max_terms() -> usize {
    CTX.with(|c| c.borrow().max_terms)
}
/// Value of the term under an assignment of its symbols (missing ones are zero).
/// Returns None when an inverted value is zero.
pub fn eval(v: &U256, assignment: &dyn Fn(&str) -> U256) -> Option<U256> {
    fn go(v: &U256, f: &dyn Fn(&str) -> U256, memo: &mut HashMap<u32, Option<U256>>) -> Option<U256> {
        let mut acc = U256::default();
        for (m, k) in expand(v) {
            let mut p = k;
            for (var, e) in m {
                let known = memo.get(&var).cloned();
                let x = match known {
                    Some(x) => x?,
                    None => {
                        let x = match var_info(var) {
                            Var::Sym(s) => Some(f(&s)),
                            Var::Inv(d) => {
                                let dv = terms_value(&d);
                                let y = go(&dv, f, memo)?;
                                if y == U256::default() { None } else { Some(stark::inv(&y)) }
                            }
                        };
                        memo.insert(var, x);
                        x?
                    }
                };
                for _ in 0..e {
                    p = stark::mul(&p, &x);
                }
            }
            acc = stark::add(&acc, &p);
        }
        Some(acc)
    }
    go(v, assignment, &mut HashMap::new())
}
/// Substitutes symbols by values (inverse atoms are rebuilt).
pub fn substitute(v: &FE, f: &dyn Fn(&str) -> Option<FE>) -> FE {
    if !is_sym(v.value()) {
        return *v;
    }
    let mut acc = FE::zero();
    for (m, k) in expand(v.value()) {
        let mut p = FE::from_raw_base(k);
        for (var, e) in m {
            let x = match var_info(var) {
                Var::Sym(s) => match f(&s) {
                    Some(x) => x,
                    None => symbol(&s),
                },
                Var::Inv(d) => substitute(&FE::from_raw_base(terms_value(&d)), f).inv(),
            };
            p = p * x.pow(e as u64);
        }
        acc = acc + p;
    }
    acc
}
pub fn show(v: &U256) -> String {
    if !is_sym(v) {
        return format!("{}", v);
    }
    let mut s = String::new();
    for (i, (m, k)) in expand(v).into_iter().enumerate() {
        if i > 0 {
            s.push_str(" + ");
        }
        if i > 40 {
            s.push_str("...");
            break;
        }
        s.push_str(&format!("{}", k));
        for (var, e) in m {
            s.push_str(&format!("*{}", var_name(var)));
            if e > 1 {
                s.push_str(&format!("^{}", e));
            }
        }
    }
    s
}
