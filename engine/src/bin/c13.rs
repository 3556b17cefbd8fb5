//! C13: what the prover opens is the low-degree extension of the trace, and it is what it committed to.
use engine::hair::*;
use engine::must::always;
use engine::pspec::*;
use engine::vspec::Cfg;
use engine::{c, report, sym, F, FE};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{config::BatchedMerkleTreeBackend, prover::evaluate_polynomial_on_lde_domain, trace::TraceTable};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::{constraints::evaluator::ConstraintEvaluator, domain::Domain, proof::options::ProofOptions, prover::prove, traits::AIR, verifier::verify};
use std::rc::Rc;

/// The points at which the prover evaluates constraints, seen through the zerofier of a boundary
/// constraint, and the points at which the verifier looks for the openings.
fn domains(n: usize, blowup: u8, offset: u64) {
    sym::reset();
    let cfg = Cfg { n, blowup, offset, iotas: vec![0] };
    always(&format!("evaluation domain[n={} blowup={} offset={}]", n, blowup, offset), &|s| {
        let pi = HPub { a: s("a"), b: s("b"), c: s("c") };
        let air = HAir::new(n, &pi, &cfg.options());
        let domain = Domain::new(&air);
        let zero = (FE::zero(), FE::zero());
        let t = vec![zero; nt()];
        let mut b = vec![zero; nb()];
        b[1].1 = FE::one();
        let cols: Vec<Vec<FE>> = (0..cols()).map(|k| (0..cfg.lde()).map(|i| s(&format!("t{}_{}", k, i))).collect()).collect();
        let got = ConstraintEvaluator::new(&air, &vec![FE::one()]).evaluate(&TraceTable::<F>::new_from_cols(&cols), &domain, &t, &b, &vec![FE::one()]).evaluations_acc;
        if got.len() != cfg.lde() {
            return Err(format!("{} points", got.len()));
        }
        let g = cfg.root(n);
        for i in 0..cfg.lde() {
            if got[i] != (cols[0][i] - pi.b) * (cfg.lde_point(i) - g).inv() {
                return Err(format!("point {} of the evaluation domain is wrong", i));
            }
        }
        Ok(())
    });
    if blowup < 4 || n < 4 || n > 8 {
        return;
    }
    sym::reset();
    always(&format!("verifier domain[n={} blowup={} offset={}]", n, blowup, offset), &|s| {
        let b = if n == 4 && blowup == 4 { s("b") } else { c(5) };
        let pi = HPub { a: c(0), b, c: c(0) };
        let o = ProofOptions { blowup_factor: blowup, fri_number_of_queries: 6, coset_offset: offset, grinding_factor: 0 };
        let p = prove::<F, HAir>(&main_trace(n, &pi), &pi, &o).map_err(|e| format!("{:?}", e))?;
        if !verify::<F, HAir>(&p, &pi, &o) {
            return Err("the verifier looks at other points than the prover".into());
        }
        let wrong = ProofOptions { coset_offset: if offset < 9 { offset + 2 } else { offset - 2 }, ..o };
        if b == c(5) && verify::<F, HAir>(&p, &pi, &wrong) {
            return Err("the verifier ignores the coset offset".into());
        }
        Ok(())
    });
}
fn e2e(cfg: &Cfg, cells: usize, instance: u64) {
    sym::reset();
    always(&format!("committed columns[{} AIR n={} blowup={} offset={} symbolic rows={}]", shape().name, cfg.n, cfg.blowup, cfg.offset, cells), &|s| {
        let main = main_columns(s, cfg.n, cells);
        let pi = HPub { a: c(5), b: c(6), c: c(7) };
        let ch: Challenges = Rc::new(move |k| random_challenge(k, instance));
        let p = run(cfg, &main, &pi, ch.clone())?;
        let e = expected(cfg, &main, &pi, ch);
        if p.deep_poly_openings.len() != cfg.iotas.len() || p.lde_trace_merkle_roots.len() != segments().len() {
            return Err("wrong number of openings or roots".into());
        }
        for (o, i) in p.deep_poly_openings.iter().zip(&cfg.iotas) {
            let pt = cfg.lde_point(*i);
            if o.lde_trace_evaluations.len() != cols() {
                return Err(format!("opening {} has {} columns", i, o.lde_trace_evaluations.len()));
            }
            for col in 0..cols() {
                if o.lde_trace_evaluations[col] != e.trace_at(col, &pt) {
                    return Err(format!("column {} at position {} is not the extension of the trace", col, i));
                }
            }
            for (k, r) in segments().into_iter().enumerate() {
                let leaf = o.lde_trace_evaluations[r].to_vec();
                if !o.lde_trace_merkle_proofs[k].verify::<BatchedMerkleTreeBackend<F>>(&p.lde_trace_merkle_roots[k], *i, &leaf) {
                    return Err(format!("the opening of segment {} at position {} does not verify", k, i));
                }
            }
        }
        Ok(())
    });
}
fn main() {
    for f in ["starks::prover::prove (rounds 1 and 4)", "starks::domain::Domain::new", "starks::trace::TraceTable::compute_trace_polys", "starks::prover::evaluate_polynomial_on_lde_domain"] {
        report::function(f);
    }
    report::bound("end to end: harness AIR, every cell of the main trace symbolic at length 2 and 4, four symbolic rows at length 8 (thorough: 16), blowup 2, 4, 8 (short traces: 32 and 128), offsets 3, 7, 2^40, 2^64 - 1, every position of the evaluation domain; eight further AIRs of other shapes (1 to 6 columns, with and without auxiliary columns, 1 to 3 frame rows, gaps between them) at length 2 and 4");
    report::bound("domains: lengths 1 to 32, blowup 2 to 128, offsets 3 to 2^64 - 1");
    report::bound("extension of single columns: lengths 1 to 64 (thorough: 512), every coefficient symbolic; challenges fixed pseudo-random values");
    e2e(&all_positions(2, 2, 3), 2, 0);
    e2e(&all_positions(4, 2, 3), 4, 1);
    e2e(&all_positions(4, 4, 7), 4, 2);
    e2e(&all_positions(4, 8, 3), 2, 3);
    e2e(&all_positions(8, 2, 7), 2, 4);
    e2e(&Cfg { n: 2, blowup: 128, offset: u64::MAX, iotas: vec![0, 1, 127, 128, 129, 200, 255] }, 1, 9);
    e2e(&Cfg { n: 4, blowup: 32, offset: 1 << 40, iotas: vec![0, 1, 31, 32, 64, 77, 127] }, 1, 10);
    if engine::thorough() {
        e2e(&all_positions(8, 4, 3), 3, 5);
        e2e(&all_positions(16, 2, 3), 2, 6);
    }
    for s in OTHERS {
        set_shape(s);
        e2e(&all_positions(2, 2, 3), 2, 7);
        e2e(&all_positions(4, 4, 7), if s.cols > 10 { 0 } else if s.cols < 4 { 4 } else { 1 }, 8);
    }
    set_shape(MIXED);
    for n in [1, 2, 4, 8, 16, 32] {
        for (b, o) in [(2, 3), (4, 7), (8, 5), (16, 3), (64, 1 << 40), (128, u64::MAX)] {
            if n * b as usize > 512 {
                continue;
            }
            domains(n, b, o);
        }
    }
    let max = if engine::thorough() { 9 } else { 6 };
    for k in 0..=max {
        let n = 1usize << k;
        sym::reset();
        always(&format!("interpolation on the trace domain, length {}", n), &|s| {
            let col: Vec<FE> = (0..n).map(|i| s(&format!("t{}", i))).collect();
            let col2: Vec<FE> = (0..n).map(|i| s(&format!("u{}", i))).collect();
            let t = TraceTable::<F>::new_from_cols(&[col.clone(), col2.clone()]);
            let polys = t.compute_trace_polys();
            if polys.len() != 2 {
                return Err("wrong number of polynomials".into());
            }
            let cfg = Cfg { n, blowup: 2, offset: 3, iotas: vec![] };
            let g = cfg.root(n);
            for (p, col) in polys.iter().zip([&col, &col2]) {
                if p.coefficients().len() > n {
                    return Err("degree too large".into());
                }
                for i in 0..n {
                    if evaluate(p.coefficients(), &g.pow(i)) != col[i] {
                        return Err(format!("value at row {} differs", i));
                    }
                }
            }
            Ok(())
        });
        for (blowup, offset) in [(2usize, 3u64), (4, 7), (8, 5), (16, 3), (32, u64::MAX), (64, 5), (128, 3)] {
            if n * blowup > (1 << (max + 1)) {
                continue;
            }
            // polynomials of full and of lower degree, as exemptions and halves of the composition are
            for len in [2 * n, n + 1, n, n / 2, n / 2 + 1, 1, 0] {
                if len > n * blowup {
                    continue;
                }
                sym::reset();
                always(&format!("extension of {} coefficients, n={} blowup={} offset={}", len, n, blowup, offset), &|s| {
                    let coefs: Vec<FE> = (0..len).map(|i| s(&format!("c{}", i))).collect();
                    let off = c(offset);
                    let v = evaluate_polynomial_on_lde_domain::<F>(&Polynomial::new(&coefs), blowup, n, &off).map_err(|e| format!("{:?}", e))?;
                    let cfg = Cfg { n, blowup: blowup as u8, offset, iotas: vec![] };
                    if v.len() != cfg.lde() {
                        return Err(format!("{} evaluations", v.len()));
                    }
                    for (i, got) in v.iter().enumerate() {
                        if *got != evaluate(&coefs, &cfg.lde_point(i)) {
                            return Err(format!("wrong value at position {}", i));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    let _ = |x: &FE| x.to_bytes_be();
    report::finish()
}
