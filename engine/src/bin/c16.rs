//! C16: trace tables and frames address rows and columns consistently.
use engine::hair::*;
use engine::must::{always, decide, Always, Sym};
use engine::pspec::*;
use engine::vspec::{Cfg, Ch};
use engine::{c, report, sym, F, FE};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::{frame::Frame, trace::TraceTable};
use std::rc::Rc;

fn same(what: &str, got: &[FE], want: &[FE]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{}: {} cells instead of {}", what, got.len(), want.len()));
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        if a != b {
            return Err(format!("{}: cell {} is not the one put there", what, i));
        }
    }
    Ok(())
}
fn table(rows: usize, cols: usize) {
    sym::reset();
    always(&format!("trace table of {} rows and {} columns", rows, cols), &|s| {
        let cs: Vec<Vec<FE>> = (0..cols).map(|k| (0..rows).map(|i| s(&format!("t{}_{}", i, k))).collect()).collect();
        let row = |i: usize| -> Vec<FE> { cs.iter().map(|k| k[i]).collect() };
        let flat: Vec<FE> = (0..rows).flat_map(row).collect();
        let t = TraceTable::<F>::new_from_cols(&cs);
        for t in [t.clone(), TraceTable::<F>::new(flat.clone(), cols)] {
            same("cells", &t.table, &flat)?;
            if t.n_cols != cols || t.n_rows() != rows || t.is_empty() {
                return Err("wrong dimensions".into());
            }
            let (r, k) = (t.rows(), t.cols());
            if r.len() != rows || k.len() != cols {
                return Err("wrong number of rows or columns".into());
            }
            for i in 0..rows {
                same("rows()", &r[i], &row(i))?;
                same("get_row", t.get_row(i), &row(i))?;
                for j in 0..cols {
                    same("get", &[t.get(i, j)], &[cs[j][i]])?;
                }
            }
            same("last_row", t.last_row(), &row(rows - 1))?;
            for j in 0..cols {
                same("cols()", &k[j], &cs[j])?;
            }
            // sub-tables: every pair and triple of columns, in any order, repetitions included
            let mut picks: Vec<Vec<usize>> = vec![vec![], (0..cols).rev().collect()];
            for a in 0..cols {
                picks.push(vec![a]);
                for b in 0..cols {
                    picks.push(vec![a, b]);
                    picks.push(vec![b, a, cols - 1 - a]);
                }
            }
            for p in picks {
                let g = t.get_cols(&p);
                let want: Vec<FE> = (0..rows).flat_map(|i| p.iter().map(|j| cs[*j][i]).collect::<Vec<_>>()).collect();
                same("get_cols", &g.table, &want)?;
                if g.n_cols != p.len() {
                    return Err("get_cols: wrong number of columns".into());
                }
            }
            for extra in 1..=3 {
                let new: Vec<FE> = (0..rows * extra).map(|i| s(&format!("n{}_{}", extra, i))).collect();
                let g = t.concatenate(new.clone(), extra);
                let want: Vec<FE> = (0..rows).flat_map(|i| row(i).into_iter().chain(new[i * extra..(i + 1) * extra].to_vec()).collect::<Vec<_>>()).collect();
                same("concatenate", &g.table, &want)?;
                if g.n_cols != cols + extra || g.n_rows() != rows {
                    return Err("concatenate: wrong dimensions".into());
                }
            }
            for blowup in [1usize, 2, 4, 8] {
                for offsets in [vec![0], vec![0, 1], vec![0, 1, 2], vec![0, 2], vec![1, 0, 3]] {
                    for step in 0..rows {
                        let f = Frame::read_from_trace(&t, step, blowup as u8, &offsets);
                        if f.num_rows() != offsets.len() || f.num_columns() != cols {
                            return Err("frame of the wrong shape".into());
                        }
                        let mut m = f.clone();
                        for (k, o) in offsets.iter().enumerate() {
                            let want = row((step + o * blowup) % rows);
                            same("frame row", f.get_row(k), &want)?;
                            same("mutable frame row", m.get_row_mut(k), &want)?;
                        }
                    }
                }
            }
        }
        // writing through a mutable row changes that row only
        let mut f = Frame::<F>::new(flat.clone(), cols);
        for k in 0..rows {
            for j in 0..cols {
                f.get_row_mut(k)[j] = s(&format!("w{}_{}", k, j));
            }
            for i in 0..rows {
                let want: Vec<FE> = if i <= k { (0..cols).map(|j| s(&format!("w{}_{}", i, j))).collect() } else { row(i) };
                same("written frame row", f.get_row(i), &want)?;
            }
        }
        Ok(())
    });
}
fn ood(polys: usize, n: usize, len: usize, offsets: &[usize]) {
    sym::reset();
    always(&format!("out-of-domain frame[{} polynomials of {} coefficients, length {}, offsets {:?}]", polys, len, n, offsets), &|s| {
        let cfg = Cfg { n, blowup: 2, offset: 3, iotas: vec![] };
        let cs: Vec<Vec<FE>> = (0..polys).map(|k| (0..len).map(|i| s(&format!("c{}_{}", k, i))).collect()).collect();
        let ps: Vec<Polynomial<FE>> = cs.iter().map(|k| Polynomial::new(k)).collect();
        let (z, g) = (s("z"), cfg.root(n));
        let f = Frame::<F>::get_trace_evaluations(&ps, &z, offsets, &g);
        if f.len() != offsets.len() {
            return Err("wrong number of rows".into());
        }
        for (row, o) in f.iter().zip(offsets) {
            let want: Vec<FE> = cs.iter().map(|k| evaluate(k, &(z * g.pow(*o)))).collect();
            same("out-of-domain row", row, &want)?;
        }
        Ok(())
    });
}
fn e2e(cfg: &Cfg, cells: usize, z_symbolic: bool, instance: u64) {
    sym::reset();
    // the prover draws again when z falls into one of the domains
    let mut nonzero = vec![];
    if z_symbolic {
        for i in 0..cfg.lde() {
            nonzero.push(engine::s("z") - cfg.lde_point(i));
        }
        for i in 0..cfg.n {
            nonzero.push(engine::s("z") - cfg.root(cfg.n).pow(i));
        }
    }
    let run_it = |s: Sym| -> Result<(), String> {
        let pi = HPub { a: c(5), b: c(6), c: c(7) };
        let main = main_columns(s, cfg.n, cells);
        let vals: Vec<FE> = (0..1000).map(|k| if z_symbolic && k == Ch::z() { s("z") } else { random_challenge(k, instance) }).collect();
        let ch: Challenges = Rc::new(move |k| vals[k]);
        let p = run(cfg, &main, &pi, ch.clone())?;
        let e = expected(cfg, &main, &pi, ch);
        let f = &p.trace_ood_frame_evaluations;
        if f.num_rows() != rows() || f.num_columns() != cols() {
            return Err("frame of the wrong shape".into());
        }
        for r in 0..rows() {
            let want: Vec<FE> = (0..cols()).map(|k| e.ood(k, r)).collect();
            same("out-of-domain row", f.get_row(r), &want)?;
        }
        Ok(())
    };
    decide(&Always { name: format!("out-of-domain frame sent by the prover[{} AIR n={} blowup={} offset={} symbolic rows={} symbolic z={}]", shape().name, cfg.n, cfg.blowup, cfg.offset, cells, z_symbolic), max_paths: 4000, known: Rc::new(|_| None), nonzero, run: &run_it, default: &|_| None });
}
fn main() {
    for f in ["starks::trace::TraceTable (all methods but the FFT)", "starks::frame::Frame::{new, get_row, get_row_mut, num_rows, num_columns, read_from_trace, get_trace_evaluations}", "starks::prover::prove (round 3)"] {
        report::function(f);
    }
    report::bound("tables of 1-8, 16 rows and 1-6 columns (thorough: 32 rows, 9 columns) of distinct symbols; every row, column and pair of columns; frames at every step, blowup 1-8, five offset patterns");
    report::bound("out-of-domain frames: 1-5 polynomials, up to 16 coefficients, symbolic coefficients and z; through prove at length 2, 4 and 8 with symbolic cells, or symbolic z; eight AIRs of other shapes at length 4");
    for rows in [1, 2, 3, 4, 5, 6, 8, 16] {
        for cols in [1, 2, 3, 4, 5, 6] {
            table(rows, cols);
        }
    }
    if engine::thorough() {
        for rows in [7, 32] {
            for cols in [1, 2, 7, 8, 9] {
                table(rows, cols);
            }
        }
    }
    for (p, n, len) in [(1, 4, 4), (3, 8, 8), (5, 8, 3), (2, 16, 16), (2, 4, 1), (3, 2, 0)] {
        for o in [&[0usize][..], &[0, 1], &[0, 1, 2], &[0, 2, 3], &[2, 0, 1]] {
            ood(p, n, len, o);
        }
    }
    e2e(&all_positions(2, 4, 3), 2, false, 0);
    e2e(&all_positions(4, 4, 7), 3, false, 1);
    e2e(&all_positions(8, 4, 3), 1, false, 2);
    // symbolic evaluation point; the proof itself is only looked at out of the domain
    e2e(&Cfg { iotas: vec![0], ..all_positions(4, 4, 3) }, 0, true, 3);
    e2e(&Cfg { iotas: vec![0], ..all_positions(8, 4, 7) }, 0, true, 4);
    for s in OTHERS {
        set_shape(s);
        e2e(&all_positions(4, 4, 7), if s.cols > 10 { 0 } else { 2 }, false, 5);
        if s.cols < 10 {
            e2e(&Cfg { iotas: vec![0], ..all_positions(4, 4, 3) }, 0, true, 6);
        }
    }
    set_shape(MIXED);
    report::finish()
}
