//! "for all values of the symbols, this run of the real code ends well".
use crate::explore::{capture, explore_until, Atom, Outcome};
use crate::{ff, prf_fe, report, sym, FE, U256};
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Gives a symbol its value: a term while exploring, a constant in a replay.
pub type Sym<'a> = &'a dyn Fn(&str) -> FE;

pub struct Always<'a> {
    pub name: String,
    pub max_paths: usize,
    /// atoms decided beforehand (assumptions of the check)
    pub known: Rc<dyn Fn(&Atom) -> Option<bool>>,
    /// further values that are not zero
    pub nonzero: Vec<FE>,
    pub run: &'a dyn Fn(Sym) -> Result<(), String>,
    /// values for a replay when the model leaves them open
    pub default: &'a dyn Fn(&str) -> Option<U256>,
}
/// Explores `run` on symbols: every path that ends in `Err` or a panic must be infeasible.
pub fn always(name: &str, run: &dyn Fn(Sym) -> Result<(), String>) {
    decide(&Always {
        name: name.to_string(),
        max_paths: 4000,
        known: Rc::new(|_| None),
        nonzero: vec![],
        run,
        default: &|_| None,
    })
}
pub fn decide(a: &Always) {
    let name = a.name.clone();
    let t = std::time::Instant::now();
    report::guard(&name, || go(a));
    if std::env::var("TIMES").is_ok() {
        eprintln!("{:8.3} {}", t.elapsed().as_secs_f64(), name);
    }
}
fn go(a: &Always) {
    let bad: RefCell<Option<(ff::Res, Vec<(String, bool)>, String)>> = RefCell::new(None);
    let good = RefCell::new(0usize);
    let pruned = RefCell::new(0usize);
    let known = a.known.clone();
    // literals fixed by `known` are assumptions; remember them so that models respect them
    let fixed: Rc<RefCell<HashMap<U256, bool>>> = Rc::new(RefCell::new(HashMap::new()));
    let f2 = fixed.clone();
    let known = Rc::new(move |x: &Atom| {
        let r = known(x);
        if let (Some(b), Atom::Zero(v)) = (r, x) {
            f2.borrow_mut().insert(*v, b);
        }
        r
    });
    let ex = explore_until(
        a.max_paths,
        false,
        known,
        || (a.run)(&|n| sym::symbol(n)),
        |atoms, path| {
            let why = match &path.outcome {
                Outcome::Value(Ok(())) => {
                    *good.borrow_mut() += 1;
                    return false;
                }
                Outcome::Value(Err(e)) => e.clone(),
                Outcome::Panic(p) => format!("panic: {}", p),
            };
            let mut eqs = vec![];
            let mut neqs = sym::assumed_nonzero();
            neqs.extend(a.nonzero.iter().map(|v| *v.value()));
            for (i, b) in &path.literals {
                if let Atom::Zero(v) = &atoms[*i] {
                    if *b {
                        eqs.push(*v)
                    } else {
                        neqs.push(*v)
                    }
                }
            }
            for (v, b) in fixed.borrow().iter() {
                if *b {
                    eqs.push(*v)
                } else {
                    neqs.push(*v)
                }
            }
            let t = std::time::Instant::now();
            let r = ff::solve(&eqs, &neqs);
            report::query(t);
            if let ff::Res::Unsat = r {
                *pruned.borrow_mut() += 1;
                return false;
            }
            let lits = path
                .literals
                .iter()
                .map(|(i, b)| {
                    let mut t = atoms[*i].show();
                    t.truncate(240);
                    (t, *b)
                })
                .collect();
            let sat = matches!(r, ff::Res::Sat(_));
            if sat || bad.borrow().is_none() {
                *bad.borrow_mut() = Some((r, lits, why));
            }
            sat
        },
    );
    let bad = bad.into_inner();
    match bad {
        None if ex.complete => {
            report::witness(&format!("{}: some path succeeds", a.name), *good.borrow() > 0);
            report::discharged(
                &a.name,
                format!("{} path(s) end well, {} infeasible, {} atoms", good.borrow(), pruned.borrow(), ex.atoms.len()),
            )
        }
        None => report::inconclusive(&a.name, format!("more than {} paths", a.max_paths)),
        Some((ff::Res::Sat(m), lits, why)) => {
            let value = |n: &str| -> U256 {
                m.get(n).cloned().or_else(|| (a.default)(n)).unwrap_or_else(|| *prf_fe(n, 7).value())
            };
            let used: RefCell<std::collections::BTreeMap<String, U256>> = RefCell::new(Default::default());
            let got = capture(|| {
                (a.run)(&|n| {
                    let v = value(n);
                    used.borrow_mut().insert(n.to_string(), v);
                    FE::from_raw_base(v)
                })
            });
            let d = json!({"what": why, "replay": format!("{:?}", got), "path": lits,
                "values": used.borrow().iter().map(|(k, v)| format!("{} = {}", k, v)).collect::<Vec<_>>()});
            match got {
                Outcome::Value(Ok(())) => report::inconclusive(&a.name, json!({"reason": "the counterexample does not replay", "detail": d})),
                _ => report::violated(&a.name, d),
            }
        }
        // no path with a counterexample was found, but the solver could not decide one
        Some((ff::Res::Unknown(u), lits, why)) => {
            report::inconclusive(&a.name, json!({"reason": u, "what": why, "path": lits}))
        }
        Some((ff::Res::Unsat, ..)) => unreachable!(),
    }
}
