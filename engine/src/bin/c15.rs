//! C15: FRI layers are the folds of the DEEP polynomial; queries open the right positions.
use engine::hair::*;
use engine::must::{always, Sym};
use engine::pspec::*;
use engine::vspec::{Cfg, Ch};
use engine::{c, hooks, report, sym, F, FE};
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::config::FriMerkleTreeBackend;
use lambdaworks_stark::starks::fri::{fri_commit_phase, fri_decommit::FriDecommitment, fri_query_phase};
use lambdaworks_stark::starks::traits::AIR;
use std::rc::Rc;

fn queries(list: &[FriDecommitment<F>], positions: &[usize], want: &[Vec<FE>], roots: &[[u8; 32]]) -> Result<(), String> {
    if list.len() != positions.len() {
        return Err(format!("{} queries", list.len()));
    }
    for (d, i) in list.iter().zip(positions) {
        let k = roots.len();
        if [d.layers_evaluations.len(), d.layers_evaluations_sym.len(), d.layers_auth_paths.len(), d.layers_auth_paths_sym.len()] != [k; 4] {
            return Err(format!("query {} has the wrong number of layers", i));
        }
        for (l, root) in roots.iter().enumerate() {
            let size = want[l].len();
            let (p, s) = (i % size, (i + size / 2) % size);
            if d.layers_evaluations[l] != want[l][p] {
                return Err(format!("query {}, layer {}: the evaluation is not the fold", i, l));
            }
            if d.layers_evaluations_sym[l] != want[l][s] {
                return Err(format!("query {}, layer {}: the symmetric evaluation is not the fold", i, l));
            }
            for (path, pos, leaf) in [(&d.layers_auth_paths[l], p, &d.layers_evaluations[l]), (&d.layers_auth_paths_sym[l], s, &d.layers_evaluations_sym[l])] {
                if path.merkle_path.len() != size.trailing_zeros() as usize {
                    return Err(format!("query {}, layer {}: path of {} nodes", i, l, path.merkle_path.len()));
                }
                if !path.verify::<FriMerkleTreeBackend<F>>(root, pos, leaf) {
                    return Err(format!("query {}, layer {}: the opening of position {} does not verify", i, l, pos));
                }
            }
        }
    }
    Ok(())
}
fn direct(n: usize, blowup: u8, offset: u64, len: usize, symbolic_zetas: bool) {
    sym::reset();
    let cfg = Cfg { n, blowup, offset, iotas: (0..n * blowup as usize).collect() };
    always(&format!("commit and query phase[{} layers, domain {}, offset {}, {} coefficients{}]", cfg.layers(), cfg.lde(), offset, len, if symbolic_zetas { ", symbolic challenges" } else { "" }), &|s| {
        let layers = cfg.layers();
        let p0: Vec<FE> = (0..len).map(|i| s(&format!("c{}", i))).collect();
        let zetas: Vec<FE> = (0..layers).map(|k| if symbolic_zetas { s(&format!("z{}", k)) } else { random_challenge(k, len as u64) }).collect();
        // positions beyond the domain have to wrap around
        let ask: Vec<u64> = cfg.iotas.iter().map(|i| (*i + (i % 3) * cfg.lde()) as u64).collect();
        let (z2, a2) = (zetas.clone(), ask.clone());
        hooks::set_challenge(Some(Rc::new(move |k, _| {
            let mut b = [0u8; 32];
            if k < z2.len() {
                let v = z2[k];
                return if sym::is_sym(v.value()) { sym::tagged_bytes(&v, k as u64) } else { v.to_bytes_be().try_into().unwrap() };
            }
            b[..8].copy_from_slice(&a2.get(k - z2.len()).cloned().unwrap_or(0).to_be_bytes());
            b
        })));
        let mut t = DefaultTranscript::new();
        let (last, list) = fri_commit_phase::<F, _>(layers, Polynomial::new(&p0), &mut t, &c(offset), cfg.lde());
        let air = HAir::new(n, &HPub { a: c(1), b: c(1), c: c(1) }, &cfg.options());
        let (qs, iotas) = fri_query_phase::<F, HAir, _>(&air, cfg.lde(), &list, &mut t);
        hooks::set_challenge(None);
        if iotas != cfg.iotas {
            return Err("the queried positions are not the transcript's, reduced to the domain".into());
        }
        let points: Vec<FE> = (0..cfg.lde()).map(|i| cfg.lde_point(i)).collect();
        let first: Vec<FE> = points.iter().map(|x| evaluate(&p0, x)).collect();
        let want = folds(first, points, &zetas);
        if list.len() != layers {
            return Err(format!("{} layers", list.len()));
        }
        for (l, layer) in list.iter().enumerate() {
            if layer.evaluation != want[l] {
                return Err(format!("layer {} is not the fold of the one before", l));
            }
        }
        let roots: Vec<[u8; 32]> = list.iter().map(|l| l.merkle_tree.root).collect();
        queries(&qs, &cfg.iotas, &want, &roots)?;
        // a polynomial of degree < 2^layers folds to a constant
        for v in want.last().unwrap() {
            if *v != last {
                return Err("the final value is not the last fold".into());
            }
        }
        Ok(())
    });
}
fn e2e(cfg: &Cfg, cells: usize, instance: u64, pubs: Option<()>, symbolic: bool) {
    sym::reset();
    always(&format!("prover's FRI[{} AIR n={} blowup={} offset={} symbolic rows={} symbolic challenges={}]", shape().name, cfg.n, cfg.blowup, cfg.offset, cells, symbolic), &|s: Sym| {
        let pi = HPub { a: c(5), b: c(6), c: c(7) };
        let main = if pubs.is_some() { main_trace(cfg.n, &pi).cols() } else { main_columns(s, cfg.n, cells) };
        let vals: Vec<FE> = (0..1000)
            .map(|k| if symbolic && k > Ch::z() { s(&format!("ch{:03}", k)) } else { random_challenge(k, instance) })
            .collect();
        let ch: Challenges = Rc::new(move |k| vals[k]);
        let p = run(cfg, &main, &pi, ch.clone())?;
        let e = expected(cfg, &main, &pi, ch);
        let want = e.fri();
        if p.fri_layers_merkle_roots.len() != cfg.layers() {
            return Err("wrong number of FRI roots".into());
        }
        queries(&p.query_list, &cfg.iotas, &want, &p.fri_layers_merkle_roots)?;
        if cfg.blowup == 2 || pubs.is_some() {
            for v in want.last().unwrap() {
                if *v != p.fri_last_value {
                    return Err("the final value is not the last fold".into());
                }
            }
        }
        Ok(())
    });
}
fn main() {
    for f in ["starks::fri::fri_commit_phase", "starks::fri::fri_query_phase", "starks::fri::fri_functions::fold_polynomial", "starks::fri::fri_commitment::FriLayer::new", "starks::prover::prove (round 4, DEEP composition polynomial)"] {
        report::function(f);
    }
    report::bound("commit and query phase alone: 1 to 6 layers (thorough: 8), domains 4 to 256 (thorough: 1024), blowup 2 to 128, offsets up to 2^64-1, every coefficient symbolic, challenges symbolic up to 4 layers (thorough: 6), every position queried, also by indices beyond the domain");
    report::bound("through prove: length 2 and 4 with symbolic cells or symbolic DEEP and folding challenges; length 8 and 16 on a satisfying trace; also for eight AIRs of other shapes at length 4 and 8");
    for (n, b, o) in [(2, 2, 3), (2, 8, 7), (4, 2, 3), (4, 4, 5), (8, 2, 3), (8, 4, 7), (16, 2, 3)] {
        direct(n, b, o, n, true);
        for len in [n - 1, n / 2 + 1, 1, 0] {
            direct(n, b, o, len, true);
        }
    }
    // numbers that do not fit in a few bits
    direct(2, 128, u64::MAX, 2, true);
    direct(4, 64, 1 << 40, 4, true);
    direct(8, 32, 5, 7, true);
    direct(32, 4, 3, 32, false);
    direct(64, 2, 7, 64, false);
    if engine::thorough() {
        direct(32, 2, 3, 32, true);
        direct(64, 2, 3, 64, true);
        direct(128, 4, 3, 128, false);
        direct(256, 4, 7, 256, false);
    }
    e2e(&all_positions(2, 2, 3), 2, 0, None, false);
    e2e(&all_positions(4, 2, 3), 2, 1, None, false);
    e2e(&all_positions(4, 4, 7), 2, 2, None, false);
    e2e(&all_positions(4, 4, 3), 0, 3, Some(()), true);
    e2e(&all_positions(8, 4, 7), 0, 4, Some(()), true);
    e2e(&all_positions(16, 8, 3), 0, 5, Some(()), false);
    for s in OTHERS {
        set_shape(s);
        e2e(&all_positions(4, 2, 3), if s.cols > 10 { 0 } else { 1 }, 6, None, false);
        e2e(&all_positions(4, 4, 3), 0, 7, Some(()), true);
        e2e(&all_positions(8, 4, 7), 0, 8, Some(()), s.cols < 4);
    }
    set_shape(MIXED);
    if engine::thorough() {
        e2e(&all_positions(4, 2, 3), 4, 6, None, false);
        e2e(&all_positions(8, 2, 5), 2, 7, None, false);
    }
    report::finish()
}
