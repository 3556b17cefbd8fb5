//! C31: the debug trace validator accepts exactly the satisfying traces.
use engine::explore::Atom;
use engine::hair::*;
use engine::must::{decide, Always, Sym};
use engine::pspec::*;
use engine::vspec::Cfg;
use engine::{report, sym, F, FE};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::example::{
    dummy_air::DummyAIR, fibonacci_2_columns::Fibonacci2ColsAIR, fibonacci_rap::{FibonacciRAP, FibonacciRAPPublicInputs},
    quadratic_air::{QuadraticAIR, QuadraticPublicInputs}, simple_fibonacci::{FibonacciAIR, FibonacciPublicInputs},
};
use lambdaworks_stark::starks::{debug::validate_trace, domain::Domain, frame::Frame, traits::AIR};
use std::collections::HashMap;
use std::rc::Rc;

/// Everything that has to vanish on the trace, from the AIR's declarations.
fn conditions<A: AIR<Field = F>>(air: &A, cols: &[Vec<FE>], r: &A::RAPChallenges) -> Vec<FE> {
    let n = cols[0].len();
    let cx = air.context();
    let mut out: Vec<FE> = air.boundary_constraints(r).constraints.iter().map(|b| cols[b.col][b.step] - b.value).collect();
    for i in 0..n {
        let mut data = vec![];
        for o in &cx.transition_offsets {
            for k in cols {
                data.push(k[(i + o) % n]);
            }
        }
        for (k, v) in air.compute_transition(&Frame::new(data, cols.len()), r).into_iter().enumerate() {
            if i + cx.transition_exemptions[k] < n {
                out.push(v);
            }
        }
    }
    out
}
fn cell(s: Sym, k: usize, i: usize) -> FE {
    s(&format!("t{}_{}", k, i))
}
/// `free`: the conditions which may fail; all the others are assumed to hold (None: no assumption).
fn check<A: AIR<Field = F>>(name: &str, n: usize, columns: usize, pi: &dyn Fn(Sym) -> A::PublicInputs, rap: &dyn Fn(Sym) -> A::RAPChallenges, free: Option<Vec<usize>>) {
    let cfg = Cfg { n, blowup: 2, offset: 3, iotas: vec![0] };
    let zero = |v: &FE| -> Atom { Atom::zero(v) };
    let mut held: HashMap<Atom, bool> = HashMap::new();
    if let Some(f) = &free {
        let s: Sym = &|x| sym::symbol(x);
        let air = A::new(n, &pi(s), &cfg.options());
        let cols: Vec<Vec<FE>> = (0..columns).map(|k| (0..n).map(|i| cell(s, k, i)).collect()).collect();
        let c = conditions(&air, &cols, &rap(s));
        for (i, v) in c.iter().enumerate() {
            if !f.contains(&i) {
                held.insert(zero(v), true);
            }
        }
        for i in f {
            held.remove(&zero(&c[*i]));
        }
    }
    let known = Rc::new(move |a: &Atom| held.get(a).cloned());
    decide(&Always {
        name: format!("validator[{} n={} conditions that may fail: {:?}]", name, n, free),
        max_paths: 20000,
        known,
        nonzero: vec![],
        run: &|s| {
            let air = A::new(n, &pi(s), &cfg.options());
            let cols: Vec<Vec<FE>> = (0..columns).map(|k| (0..n).map(|i| cell(s, k, i)).collect()).collect();
            let r = rap(s);
            let g = cfg.root(n);
            let polys: Vec<Polynomial<FE>> = cols.iter().map(|k| Polynomial::new(&interpolate(k, &g, &FE::one()))).collect();
            let got = validate_trace::<F, A>(&air, &polys, &Domain::new(&air), &r);
            let want = conditions(&air, &cols, &r).iter().all(|v| *v == FE::zero());
            match (got, want) {
                (true, false) => Err("an unsatisfying trace is accepted".into()),
                (false, true) => Err("a satisfying trace is refused".into()),
                _ => Ok(()),
            }
        },
        default: &|_| None,
    });
}
/// How many conditions there are for a length.
fn count<A: AIR<Field = F>>(n: usize, columns: usize, pi: &A::PublicInputs, r: &A::RAPChallenges) -> usize {
    let cfg = Cfg { n, blowup: 2, offset: 3, iotas: vec![0] };
    let air = A::new(n, pi, &cfg.options());
    let cols: Vec<Vec<FE>> = (0..columns).map(|k| (0..n).map(|i| engine::c((k * n + i) as u64)).collect()).collect();
    conditions(&air, &cols, r).len()
}
fn all<A: AIR<Field = F>>(name: &str, columns: usize, pi: &dyn Fn(Sym) -> A::PublicInputs, rap: &dyn Fn(Sym) -> A::RAPChallenges, full: &[usize], windows: &[usize]) {
    for n in full {
        sym::reset();
        check::<A>(name, *n, columns, pi, rap, None);
    }
    for n in windows {
        sym::reset();
        let m = count::<A>(*n, columns, &pi(&|x| sym::symbol(x)), &rap(&|x| sym::symbol(x)));
        // no condition fails; each one alone, and neighbours
        check::<A>(name, *n, columns, pi, rap, Some(vec![]));
        for i in 0..m {
            let w: Vec<usize> = [i, (i + 1) % m, (i + m / 2) % m].into_iter().collect();
            check::<A>(name, *n, columns, pi, rap, Some(w));
        }
    }
}
/// A satisfying trace with any values in some cells of one row.
fn perturbed(n: usize, row: usize, columns: &[usize]) {
    sym::reset();
    let cfg = Cfg { n, blowup: 2, offset: 3, iotas: vec![0] };
    decide(&Always {
        name: format!("validator[{} AIR n={} any values in row {} of columns {:?}]", shape().name, n, row, columns),
        max_paths: 20000,
        known: Rc::new(|_| None),
        nonzero: vec![],
        run: &|s| {
            let p = HPub { a: engine::c(5), b: engine::c(6), c: engine::c(7) };
            let r: Vec<FE> = (0..shape().rap).map(|i| random_challenge(i, 31)).collect();
            let air = HAir::new(n, &p, &cfg.options());
            let mut cols = (shape().main)(n, &p);
            cols.extend((shape().auxiliary)(&cols, &r));
            for k in columns {
                cols[*k][row] = cell(s, *k, row);
            }
            let g = cfg.root(n);
            let polys: Vec<Polynomial<FE>> = cols.iter().map(|k| Polynomial::new(&interpolate(k, &g, &FE::one()))).collect();
            let got = validate_trace::<F, HAir>(&air, &polys, &Domain::new(&air), &r);
            let want = conditions(&air, &cols, &r).iter().all(|v| *v == FE::zero());
            match (got, want) {
                (true, false) => Err("an unsatisfying trace is accepted".into()),
                (false, true) => Err("a satisfying trace is refused".into()),
                _ => Ok(()),
            }
        },
        default: &|_| None,
    });
}
fn main() {
    for f in ["starks::debug::validate_trace", "starks::frame::Frame::read_from_trace", "starks::domain::Domain::new", "boundary_constraints and compute_transition of every example AIR"] {
        report::function(f);
    }
    report::bound("every cell, public input and AIR challenge symbolic; all combinations of failing conditions at the short lengths (2 to 8), every condition failing alone or with two others at the long ones (4 to 16); satisfying traces of 64 and 512 rows (48 columns: 16 rows) with any values in one or two cells of a row");
    let hp: &dyn Fn(Sym) -> HPub = &|s| HPub { a: s("a"), b: s("b"), c: s("c") };
    let gamma: &dyn Fn(Sym) -> FE = &|s| s("gamma");
    let rap: &dyn Fn(Sym) -> Vec<FE> = &|s| (0..shape().rap).map(|i| s(&format!("gamma{}", i))).collect();
    let unit: &dyn Fn(Sym) = &|_| ();
    for e in [[2, 1, 1, 0], [1, 1, 1, 1], [0, 2, 0, 1]] {
        set_exempt(&e);
        all::<HAir>(&format!("harness AIR, exempted rows {:?}", e), cols(), hp, rap, if e[0] == 2 { &[2] } else { &[] }, if e[0] == 2 { &[4, 8] } else { &[4] });
    }
    reset_exempt();
    for s in OTHERS {
        set_shape(s);
        if s.cols > 10 {
            continue;
        }
        all::<HAir>(&format!("{} AIR", s.name), cols(), hp, rap, if s.cols < 3 { &[2, 4] } else { &[2] }, if s.cols < 4 { &[4, 8] } else { &[4] });
    }
    for s in OTHERS.into_iter().chain([MIXED]) {
        set_shape(s);
        let n = if s.cols > 10 { 16 } else { 64 };
        for row in [0, 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1] {
            perturbed(n, row, &(0..s.cols.min(2)).collect::<Vec<_>>());
            perturbed(n, row, &[s.cols - 1]);
        }
    }
    for s in [FAR, MIXED] {
        set_shape(s);
        for row in if s.cols == 2 { vec![0, 1, 255, 256, 257, 300, 510, 511] } else { vec![0, 257, 300, 511] } {
            perturbed(512, row, &[row % 2]);
        }
    }
    set_shape(MIXED);
    let fp: &dyn Fn(Sym) -> FibonacciPublicInputs<F> = &|s| FibonacciPublicInputs { a0: s("a0"), a1: s("a1") };
    let qp: &dyn Fn(Sym) -> QuadraticPublicInputs<F> = &|s| QuadraticPublicInputs { a0: s("a0") };
    let long: &[usize] = if engine::thorough() { &[16, 32] } else { &[16] };
    all::<FibonacciAIR<F>>("simple Fibonacci", 1, fp, unit, &[2, 4, 8], long);
    all::<Fibonacci2ColsAIR<F>>("two-column Fibonacci", 2, fp, unit, &[2, 4], long);
    all::<QuadraticAIR<F>>("quadratic", 1, qp, unit, &[2, 4, 8], long);
    all::<DummyAIR>("dummy", 2, unit, unit, &[4], &[8]);
    for steps in [4, 3] {
        let rp: &dyn Fn(Sym) -> FibonacciRAPPublicInputs<F> = &|s| FibonacciRAPPublicInputs { steps, a0: s("a0"), a1: s("a1") };
        all::<FibonacciRAP<F>>(&format!("Fibonacci RAP with {} steps", steps), 3, rp, gamma, &[4], &[8]);
    }
    report::finish()
}
