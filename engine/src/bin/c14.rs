//! C14: the composition evaluator computes exactly the declared quotients.
use engine::hair::*;
use engine::must::{always, Sym};
use engine::pspec::*;
use engine::vspec::{Cfg, Ch};
use engine::{c, report, sym, F, FE};
use lambdaworks_stark::starks::{
    config::BatchedMerkleTreeBackend, constraints::evaluator::ConstraintEvaluator, domain::Domain, trace::TraceTable, traits::AIR,
};
use lambdaworks_stark::starks::example::{
    dummy_air::DummyAIR, fibonacci_2_columns::Fibonacci2ColsAIR, fibonacci_rap::{FibonacciRAP, FibonacciRAPPublicInputs},
    quadratic_air::{QuadraticAIR, QuadraticPublicInputs}, simple_fibonacci::{FibonacciAIR, FibonacciPublicInputs},
};
use lambdaworks_stark::starks::frame::Frame;
use std::rc::Rc;

fn evaluator(cfg: &Cfg, what: &str) {
    sym::reset();
    let challenges_symbolic = what != "cells";
    let cells_symbolic = what != "coefficients";
    always(&format!("evaluator[{} AIR, exempted rows {:?} n={} blowup={} offset={} symbolic: {}]", shape().name, exempt(), cfg.n, cfg.blowup, cfg.offset, what), &|s| {
        let lde = cfg.lde();
        let cols: Vec<Vec<FE>> = (0..cols())
            .map(|k| (0..lde).map(|i| if cells_symbolic { s(&format!("t{}_{}", k, i)) } else { random_challenge(1000 + k * lde + i, 1) }).collect())
            .collect();
        let names: Vec<String> = (0..400).map(|k| format!("ch{:03}", k)).collect();
        let vals: Vec<FE> = (0..400).map(|k| if challenges_symbolic { s(&names[k]) } else { random_challenge(k, 2) }).collect();
        let v2 = vals.clone();
        let ch: Challenges = Rc::new(move |k| v2[k]);
        let pi = HPub { a: s("pub_a"), b: s("pub_b"), c: s("pub_c") };
        let air = HAir::new(cfg.n, &pi, &cfg.options());
        let domain = Domain::new(&air);
        let gamma: Vec<FE> = Ch::rap().map(|i| ch(i)).collect();
        let t: Vec<(FE, FE)> = (0..nt()).map(|i| (vals[Ch::t_alpha(i)], vals[Ch::t_beta(i)])).collect();
        let b: Vec<(FE, FE)> = (0..nb()).map(|i| (vals[Ch::b_alpha(i)], vals[Ch::b_beta(i)])).collect();
        let trace = TraceTable::<F>::new_from_cols(&cols);
        let got = ConstraintEvaluator::new(&air, &gamma).evaluate(&trace, &domain, &t, &b, &gamma).evaluations_acc;
        if got.len() != lde {
            return Err(format!("{} evaluations", got.len()));
        }
        for i in 0..lde {
            let frame: Vec<Vec<FE>> = shape()
                .offsets
                .iter()
                .map(|r| (0..cols.len()).map(|k| cols[k][(i + r * cfg.blowup as usize) % lde]).collect())
                .collect();
            if got[i] != composition_of_frame(cfg, &frame, &cfg.lde_point(i), &pi, &ch) {
                return Err(format!("the value at position {} is not the sum of the quotients", i));
            }
        }
        Ok(())
    });
}
/// The evaluator on any AIR against the quotients its own context and constraints declare.
fn declared<A: AIR<Field = F>>(name: &str, n: usize, blowup: u8, pi: &dyn Fn(Sym) -> A::PublicInputs, rap: &dyn Fn(Sym) -> A::RAPChallenges, symbolic_cells: bool)
where
    A: Send + Sync,
    A::RAPChallenges: Send + Sync,
{
    sym::reset();
    let cfg = Cfg { n, blowup, offset: 3, iotas: vec![0] };
    always(&format!("evaluator[{} n={} blowup={}]", name, n, blowup), &|s| {
        let lde = cfg.lde();
        let air = A::new(n, &pi(s), &cfg.options());
        let cx = air.context().clone();
        let cols: Vec<Vec<FE>> = (0..cx.trace_columns)
            .map(|k| (0..lde).map(|i| if symbolic_cells { s(&format!("t{}_{}", k, i)) } else { random_challenge(1000 + k * lde + i, 1) }).collect())
            .collect();
        let r = rap(s);
        let bc = air.boundary_constraints(&r).constraints;
        let pairs = |p: &str, m: usize| -> Vec<(FE, FE)> { (0..m).map(|i| (s(&format!("{}a{}", p, i)), s(&format!("{}b{}", p, i)))).collect() };
        let (t, b) = (pairs("t", cx.num_transition_constraints), pairs("b", bc.len()));
        let got = ConstraintEvaluator::new(&air, &r).evaluate(&TraceTable::<F>::new_from_cols(&cols), &Domain::new(&air), &t, &b, &r).evaluations_acc;
        let g = cfg.root(n);
        let bound = air.composition_poly_degree_bound();
        for i in 0..lde {
            let p = cfg.lde_point(i);
            let mut data = vec![];
            for off in &cx.transition_offsets {
                for col in &cols {
                    data.push(col[(i + off * blowup as usize) % lde]);
                }
            }
            let cs = air.compute_transition(&Frame::new(data, cols.len()), &r);
            let mut h = FE::zero();
            for (k, x) in bc.iter().enumerate() {
                h = h + (cols[x.col][i] - x.value) * (p - g.pow(x.step)).inv() * (b[k].0 * p.pow(bound - n) + b[k].1);
            }
            let zerofier = (p.pow(n) - FE::one()).inv();
            for (k, x) in cs.iter().enumerate() {
                let mut e = FE::one();
                for j in 1..=cx.transition_exemptions[k] {
                    e = e * (p - g.pow(n - j));
                }
                h = h + *x * zerofier * e * (t[k].0 * p.pow(bound - n * (cx.transition_degrees[k] - 1)) + t[k].1);
            }
            if got.get(i) != Some(&h) {
                return Err(format!("the value at position {} is not the sum of the quotients", i));
            }
        }
        Ok(())
    });
}
fn examples() {
    for (n, b) in [(4, 2), (8, 4)] {
        declared::<FibonacciAIR<F>>("simple Fibonacci", n, b, &|s| FibonacciPublicInputs { a0: s("a0"), a1: s("a1") }, &|_| (), true);
        declared::<Fibonacci2ColsAIR<F>>("two-column Fibonacci", n, b, &|s| FibonacciPublicInputs { a0: s("a0"), a1: s("a1") }, &|_| (), true);
        declared::<QuadraticAIR<F>>("quadratic", n, b, &|s| QuadraticPublicInputs { a0: s("a0") }, &|_| (), true);
        declared::<DummyAIR>("dummy", n, b, &|_| (), &|_| (), true);
        for steps in [n, n - 1, n / 2 + 1] {
            declared::<FibonacciRAP<F>>(&format!("Fibonacci RAP with {} steps", steps), n, b, &|s| FibonacciRAPPublicInputs { steps, a0: s("a0"), a1: s("a1") }, &|s| s("gamma"), true);
        }
    }
}
fn committed(cfg: &Cfg, cells: usize, coefs: bool, instance: u64) {
    sym::reset();
    always(&format!("committed composition[{} AIR n={} blowup={} offset={} symbolic rows={} symbolic coefficients={}]", shape().name, cfg.n, cfg.blowup, cfg.offset, cells, coefs), &|s: Sym| {
        let main = main_columns(s, cfg.n, cells);
        let pi = HPub { a: c(5), b: c(6), c: c(7) };
        let vals: Vec<FE> = (0..1000)
            .map(|k| if coefs && k >= shape().rap && k < Ch::z() { s(&format!("ch{:03}", k)) } else { random_challenge(k, instance) })
            .collect();
        let ch: Challenges = Rc::new(move |k| vals[k]);
        let p = run(cfg, &main, &pi, ch.clone())?;
        let e = expected(cfg, &main, &pi, ch);
        let z2 = e.z * e.z;
        if p.composition_poly_even_ood_evaluation != evaluate(&e.h1, &z2) || p.composition_poly_odd_ood_evaluation != evaluate(&e.h2, &z2) {
            return Err("the out-of-domain values are not those of the composition polynomial".into());
        }
        if p.deep_poly_openings.len() != cfg.iotas.len() {
            return Err("wrong number of openings".into());
        }
        for (o, i) in p.deep_poly_openings.iter().zip(&cfg.iotas) {
            let pt = cfg.lde_point(*i);
            let (a, b) = (o.lde_composition_poly_even_evaluation, o.lde_composition_poly_odd_evaluation);
            if a != evaluate(&e.h1, &pt) || b != evaluate(&e.h2, &pt) {
                return Err(format!("the opening at position {} is not the composition polynomial", i));
            }
            if !o.lde_composition_poly_proof.verify::<BatchedMerkleTreeBackend<F>>(&p.composition_poly_root, *i, &vec![a, b]) {
                return Err(format!("the opening at position {} does not verify", i));
            }
        }
        Ok(())
    });
}
fn main() {
    for f in ["starks::constraints::evaluator::ConstraintEvaluator::evaluate", "starks::traits::AIR::transition_exemptions", "starks::domain::Domain::new", "starks::frame::Frame::read_from_trace", "starks::prover::prove (round 2 and 3)", "starks::constraints::evaluation_table"] {
        report::function(f);
    }
    report::bound("harness AIR (5 boundary, 4 transition constraints of degrees 1, 2, 3, 1 with 2, 1, 1, 0 exempted rows): evaluator on lengths 2 to 32, blowup 2 to 8 (short traces: up to 128), coset offsets up to 2^64 - 1, every cell of the extended trace, every coefficient, the AIR challenge and the public inputs symbolic; at length 512 the coefficients and inputs symbolic; seven patterns of exempted rows; every example AIR at lengths 4 and 8, eight further AIRs of other shapes (all constraints linear, one constraint, one frame row, gaps between frame rows, three AIR challenges, 48 columns with as many constraints of each kind) at lengths 2 to 16");
    report::bound("end to end through prove: length 2 and 4 with symbolic cells, or symbolic coefficients");
    let cfg = |n, b, o| Cfg { n, blowup: b, offset: o, iotas: vec![] };
    for (n, b, o) in [(2, 4, 3), (4, 2, 3), (4, 4, 7), (8, 2, 3), (8, 8, 5), (16, 4, 3)] {
        evaluator(&cfg(n, b, o), "everything");
    }
    for (n, b, o) in [(2, 16, 5), (2, 128, 3), (4, 64, u64::MAX), (8, 32, 1 << 40)] {
        evaluator(&cfg(n, b, o), "everything");
    }
    evaluator(&cfg(32, 4, 3), "cells");
    evaluator(&cfg(32, 2, 3), "coefficients");
    if engine::thorough() {
        for (n, b, o) in [(32, 8, 3), (64, 2, 7), (128, 4, 3)] {
            evaluator(&cfg(n, b, o), "everything");
        }
    }
    for v in [[1, 1, 1, 1], [0, 0, 0, 0], [3, 2, 1, 0], [1, 2, 3, 0], [2, 2, 0, 2], [0, 0, 4, 1]] {
        set_exempt(&v);
        for (n, b, o) in [(4, 4, 3), (8, 2, 7)] {
            evaluator(&cfg(n, b, o), "everything");
        }
    }
    reset_exempt();
    examples();
    for s in [FAR, MIXED] {
        set_shape(s);
        evaluator(&cfg(512, 2, 3), "coefficients");
    }
    for s in OTHERS {
        set_shape(s);
        for (n, b, o) in [(2, 4, 3), (4, 2, 3), (8, 4, 7), (16, 2, 3)] {
            if n > s.offsets[s.offsets.len() - 1] {
                evaluator(&cfg(n, b, o), "everything");
            }
        }
        committed(&all_positions(4, 4, 7), if s.cols > 10 { 0 } else { 2 }, false, 8);
        committed(&all_positions(4, 2, 3), 0, true, 9);
        committed(&all_positions(8, 4, 3), 0, true, 10);
    }
    set_shape(MIXED);
    committed(&all_positions(2, 2, 3), 2, false, 0);
    committed(&all_positions(4, 2, 3), 3, false, 1);
    committed(&all_positions(4, 4, 7), 2, false, 2);
    committed(&all_positions(4, 4, 3), 0, true, 3);
    committed(&all_positions(8, 2, 3), 0, true, 4);
    if engine::thorough() {
        committed(&all_positions(4, 4, 7), 4, false, 5);
        committed(&all_positions(8, 4, 3), 2, false, 6);
        committed(&all_positions(16, 4, 3), 0, true, 7);
    }
    report::finish()
}
