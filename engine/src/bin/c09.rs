//! C09 (second half): prover and verifier take as out-of-domain point the first challenge that lies in
//! neither domain.  (The bytes-to-element functions themselves are decided by Kani.)
use engine::explore::{capture, explore_with, Atom, Outcome};
use engine::hair::*;
use engine::hooks;
use engine::pspec;
use engine::vspec::*;
use engine::{report, sym, F, FE};
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;

/// The first draws for z are these elements, the later challenges are as usual; counts the draws.
fn install(cfg: &Cfg, first: &[FE], usual: Rc<dyn Fn(usize) -> [u8; 32]>) -> Rc<Cell<usize>> {
    let n = Rc::new(Cell::new(0));
    let (n2, k) = (n.clone(), first.len());
    let first: Vec<[u8; 32]> = first.iter().map(|v| v.to_bytes_be().try_into().unwrap()).collect();
    hooks::set_challenge(Some(Rc::new(move |i, _| {
        n2.set(i + 1);
        if i < Ch::z() {
            usual(i)
        } else if i < Ch::z() + k {
            first[i - Ch::z()]
        } else {
            usual(i - k)
        }
    })));
    let _ = cfg;
    n
}
fn drawable(v: &FE) -> bool {
    v.value().limbs[0] < 0x0800_0000_0000_0000
}
fn domains(cfg: &Cfg) -> (Vec<FE>, Vec<FE>) {
    let h = FE::from(cfg.offset);
    let root = |k: usize| F::get_primitive_root_of_unity(k.trailing_zeros() as u64).unwrap();
    let (g, w) = (root(cfg.n), root(cfg.lde()));
    ((0..cfg.lde()).map(|i| h * w.pow(i)).collect(), (0..cfg.n).map(|i| g.pow(i)).collect())
}
/// The sequences of first draws: each point of the domains, then some pairs and triples.
fn sequences(cfg: &Cfg) -> Vec<Vec<FE>> {
    let (lde, tr) = domains(cfg);
    let all: Vec<FE> = lde.iter().chain(&tr).filter(|v| drawable(v)).cloned().collect();
    let mut v: Vec<Vec<FE>> = all.iter().map(|x| vec![*x]).collect();
    v.push(vec![all[0], *all.last().unwrap()]);
    v.push(vec![*all.last().unwrap(), all[all.len() / 2], all[1]]);
    v.push(vec![all[0]; 3]);
    v
}
/// Elements close to the domains that are in neither: they must not be refused.
fn neighbours(cfg: &Cfg) -> Vec<FE> {
    let (lde, tr) = domains(cfg);
    let h = FE::from(cfg.offset);
    let w = F::get_primitive_root_of_unity(cfg.lde().trailing_zeros() as u64).unwrap();
    let w2 = F::get_primitive_root_of_unity(cfg.lde().trailing_zeros() as u64 + 1).unwrap();
    let mut v = vec![FE::zero(), h.inv(), h * h, h + FE::one(), FE::from(2) * h];
    for i in 0..cfg.lde() {
        v.push(w.pow(i));
        v.push(h * w2.pow(2 * i + 1));
    }
    for x in &tr {
        v.push(h * h * *x);
    }
    v.into_iter().filter(|x| drawable(x) && !lde.contains(x) && !tr.contains(x)).collect()
}
fn verifier(cfg: &Cfg) {
    let pi = public();
    let p = proof_with(cfg, &|n| sym::symbol(n));
    let (iotas, at, lde) = (cfg.iotas.clone(), cfg.first_iota(), cfg.lde() as u64);
    let usual: Rc<dyn Fn(usize) -> [u8; 32]> = Rc::new(move |n| {
        let index = if n >= at { iotas.get(n - at).cloned().unwrap_or(0) as u64 } else { n as u64 % lde };
        sym::tagged_bytes(&ch(n), index)
    });
    // the tests the verifier makes, when everything holds
    let run = |first: &[FE]| -> (Option<bool>, usize, BTreeSet<String>) {
        let n = install(cfg, first, usual.clone());
        let atoms = Rc::new(RefCell::new(BTreeSet::new()));
        let a2 = atoms.clone();
        let known = Rc::new(move |a: &Atom| {
            Some(generic_challenges(a).unwrap_or_else(|| {
                a2.borrow_mut().insert(format!("{:?}", a));
                true
            }))
        });
        let ex = explore_with(2, true, known, || verify::<F, HAir>(&p, &pi, &cfg.options()));
        hooks::set_challenge(None);
        let r = match ex.paths.first().map(|p| &p.outcome) {
            Some(Outcome::Value(b)) => Some(*b),
            _ => None,
        };
        let a = atoms.borrow().clone();
        (r, n.get(), a)
    };
    let base = run(&[]);
    let name = format!("verify[n={} blowup={} offset={}]", cfg.n, cfg.blowup, cfg.offset);
    report::witness(&name, base.0 == Some(true));
    for first in sequences(cfg) {
        let t = std::time::Instant::now();
        let got = run(&first);
        report::query(t);
        let o = format!("{}: z is drawn again after {:?}", name, first.iter().map(|v| v.value().to_string()).collect::<Vec<_>>());
        if got.0 != Some(true) || got.1 != base.1 + first.len() || got.2 != base.2 {
            report::violated(&o, json!({"verdict": got.0, "challenges drawn": got.1, "expected": base.1 + first.len(),
                "same conditions are checked": got.2 == base.2}))
        } else {
            report::discharged(&o, format!("{} challenges, the same {} conditions on every proof", got.1, got.2.len()))
        }
    }
    for x in neighbours(cfg) {
        let t = std::time::Instant::now();
        // z itself: the challenge that usually follows is dropped
        let (u, k) = (usual.clone(), x.to_bytes_be());
        let n = install(cfg, &[], Rc::new(move |i| if i == Ch::z() { k.clone().try_into().unwrap() } else { u(i) }));
        let known = Rc::new(|a: &Atom| Some(generic_challenges(a).unwrap_or(true)));
        let ex = explore_with(2, true, known, || verify::<F, HAir>(&p, &pi, &cfg.options()));
        hooks::set_challenge(None);
        report::query(t);
        let o = format!("{}: {} is kept as z", name, x.value());
        let panicked = matches!(ex.paths[0].outcome, Outcome::Panic(_));
        if n.get() != base.1 && !panicked {
            report::violated(&o, json!({"challenges drawn": n.get(), "expected": base.1}))
        } else {
            report::discharged(&o, "")
        }
    }
}
fn prover(cfg: &Cfg) {
    let name = format!("prove[n={} blowup={} offset={}]", cfg.n, cfg.blowup, cfg.offset);
    let col = |k: &str| -> Vec<FE> { (0..cfg.n).map(|i| engine::s(&format!("{}{}", k, i))).collect() };
    let t = TraceTable::<F>::new_from_cols(&[col("x"), col("y")]);
    let pi = HPub { a: engine::s("a"), b: engine::s("b"), c: engine::s("c") };
    let (iotas, at) = (cfg.iotas.clone(), cfg.first_iota());
    let usual: Rc<dyn Fn(usize) -> [u8; 32]> = Rc::new(move |n| {
        if n >= at {
            let mut b = [0u8; 32];
            b[..8].copy_from_slice(&(iotas.get(n - at).cloned().unwrap_or(0) as u64).to_be_bytes());
            return b;
        }
        pspec::random_challenge(n, 9).to_bytes_be().try_into().unwrap()
    });
    let run = |first: &[FE]| {
        let n = install(cfg, first, usual.clone());
        let r = capture(|| prove::<F, HAir>(&t, &pi, &cfg.options()));
        hooks::set_challenge(None);
        match r {
            Outcome::Value(Ok(p)) => {
                let f = &p.trace_ood_frame_evaluations;
                let mut cells: Vec<FE> = (0..f.num_rows()).flat_map(|i| f.get_row(i).to_vec()).collect();
                cells.push(p.composition_poly_even_ood_evaluation);
                cells.push(p.composition_poly_odd_ood_evaluation);
                Some((n.get(), cells))
            }
            _ => None,
        }
    };
    let base = match run(&[]) {
        Some(b) => b,
        None => return report::inconclusive(&name, "the prover fails"),
    };
    report::witness(&name, true);
    for first in sequences(cfg) {
        let t = std::time::Instant::now();
        let got = run(&first);
        report::query(t);
        let o = format!("{}: z is drawn again after {:?}", name, first.iter().map(|v| v.value().to_string()).collect::<Vec<_>>());
        let same = got.as_ref().map(|g| g.0 == base.0 + first.len() && g.1.iter().map(|v| v.value()).eq(base.1.iter().map(|v| v.value())));
        match same {
            Some(true) => report::discharged(&o, "the same out-of-domain values for every trace"),
            x => report::violated(&o, json!({"the prover panics or fails": x.is_none(), "challenges drawn": got.map(|g| g.0), "expected": base.0 + first.len()})),
        }
    }
}
fn main() {
    for f in ["starks::transcript::sample_z_ood", "starks::verifier::verify", "starks::prover::prove", "starks::domain::Domain::new"] {
        report::function(f);
    }
    report::bound("engine E1: trace length 4 and 8, blowup 2 and 4, offsets 3 and 7: each drawable point of either domain as first draw, some pairs and triples; the proof, trace and remaining challenges symbolic");
    for cfg in [
        Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![6] },
        Cfg { n: 4, blowup: 4, offset: 7, iotas: vec![6] },
        Cfg { n: 8, blowup: 2, offset: 3, iotas: vec![6] },
    ] {
        sym::reset();
        report::guard("verifier", || verifier(&cfg));
    }
    sym::reset();
    report::guard("prover", || prover(&Cfg { n: 4, blowup: 4, offset: 3, iotas: vec![6] }));
    report::finish()
}
