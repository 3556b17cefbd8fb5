//! C06: a proof of the wrong shape is rejected: no accepting path, no panic.
use engine::explore::{capture, explore_until, explore_with, Atom, Outcome};
use engine::hair::*;
use engine::vspec::*;
use engine::{ff, hooks, prf_fe, report, s, sym, vcheck, F, FE};
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::verifier::verify;
use serde_json::json;
use std::rc::Rc;

type Change = (&'static str, Box<dyn Fn(&mut SProof, &dyn Fn(&str) -> FE)>);
fn frame(p: &SProof) -> Vec<FE> {
    let f = &p.trace_ood_frame_evaluations;
    (0..f.num_rows()).flat_map(|r| f.get_row(r).to_vec()).collect()
}
fn changes(cfg: &Cfg) -> Vec<Change> {
    let mut v: Vec<Change> = vec![];
    macro_rules! add {
        ($n:expr, $f:expr) => {
            v.push(($n, Box::new($f)))
        };
    }
    add!("no trace root", |p, _| p.lde_trace_merkle_roots.clear());
    add!("auxiliary root missing", |p, _| { p.lde_trace_merkle_roots.pop(); });
    add!("main root missing", |p, _| { p.lde_trace_merkle_roots.remove(0); });
    add!("extra trace root", |p, _| p.lde_trace_merkle_roots.push(label("x")));
    add!("no FRI layer root", |p, _| p.fri_layers_merkle_roots.clear());
    add!("last FRI layer root missing", |p, _| { p.fri_layers_merkle_roots.pop(); });
    add!("extra FRI layer root", |p, _| p.fri_layers_merkle_roots.push(label("x")));
    add!("many FRI layer roots", |p, _| for _ in 0..70 { p.fri_layers_merkle_roots.push(label("x")) });
    add!("no query", |p, _| p.query_list.clear());
    add!("last query missing", |p, _| { p.query_list.pop(); });
    add!("extra query", |p, _| { let q = p.query_list[0].clone(); p.query_list.push(q) });
    add!("no DEEP opening", |p, _| p.deep_poly_openings.clear());
    add!("last DEEP opening missing", |p, _| { p.deep_poly_openings.pop(); });
    add!("extra DEEP opening", |p, _| { let q = p.deep_poly_openings[0].clone(); p.deep_poly_openings.push(q) });
    add!("empty frame", |p, _| p.trace_ood_frame_evaluations = Frame::new(vec![], cols()));
    add!("frame of width 0", |p, _| p.trace_ood_frame_evaluations = Frame::new(frame(p), 0));
    add!("empty frame of width 0", |p, _| p.trace_ood_frame_evaluations = Frame::new(vec![], 0));
    add!("frame one row short", |p, _| { let mut d = frame(p); d.truncate(2 * cols()); p.trace_ood_frame_evaluations = Frame::new(d, cols()) });
    add!("frame with one row", |p, _| { let mut d = frame(p); d.truncate(cols()); p.trace_ood_frame_evaluations = Frame::new(d, cols()) });
    add!("frame with an extra row", |p, f| { let mut d = frame(p); for i in 0..cols() { d.push(f(&format!("x{}", i))) } p.trace_ood_frame_evaluations = Frame::new(d, cols()) });
    add!("frame one column narrower", |p, _| { let mut d = frame(p); d.truncate(3 * (cols() - 1)); p.trace_ood_frame_evaluations = Frame::new(d, cols() - 1) });
    add!("frame one column wider", |p, f| { let mut d = frame(p); for i in 0..3 { d.push(f(&format!("x{}", i))) } p.trace_ood_frame_evaluations = Frame::new(d, cols() + 1) });
    add!("frame of width 1", |p, _| p.trace_ood_frame_evaluations = Frame::new(frame(p), 1));
    add!("frame of a huge width", |p, _| p.trace_ood_frame_evaluations = Frame::new(frame(p), usize::MAX));
    for q in [0, cfg.iotas.len() - 1] {
        macro_rules! addq {
            ($n:expr, $f:expr) => {{
                let name: &'static str = Box::leak(format!("query {}: {}", q, $n).into_boxed_str());
                let f: fn(&mut SProof, usize, &dyn Fn(&str) -> FE) = $f;
                v.push((name, Box::new(move |p: &mut SProof, s: &dyn Fn(&str) -> FE| if q < p.query_list.len() && q < p.deep_poly_openings.len() { f(p, q, s) })))
            }};
        }
        addq!("no layer evaluation", |p, q, _| p.query_list[q].layers_evaluations.clear());
        addq!("last layer evaluation missing", |p, q, _| { p.query_list[q].layers_evaluations.pop(); });
        addq!("extra layer evaluation", |p, q, f| p.query_list[q].layers_evaluations.push(f("xe")));
        addq!("no symmetric evaluation", |p, q, _| p.query_list[q].layers_evaluations_sym.clear());
        addq!("last symmetric evaluation missing", |p, q, _| { p.query_list[q].layers_evaluations_sym.pop(); });
        addq!("extra symmetric evaluation", |p, q, f| p.query_list[q].layers_evaluations_sym.push(f("xs")));
        addq!("no layer path", |p, q, _| p.query_list[q].layers_auth_paths.clear());
        addq!("last layer path missing", |p, q, _| { p.query_list[q].layers_auth_paths.pop(); });
        addq!("extra layer path", |p, q, _| p.query_list[q].layers_auth_paths.push(Proof { merkle_path: vec![] }));
        addq!("no symmetric path", |p, q, _| p.query_list[q].layers_auth_paths_sym.clear());
        addq!("last symmetric path missing", |p, q, _| { p.query_list[q].layers_auth_paths_sym.pop(); });
        addq!("extra symmetric path", |p, q, _| p.query_list[q].layers_auth_paths_sym.push(Proof { merkle_path: vec![] }));
        addq!("no trace evaluation", |p, q, _| p.deep_poly_openings[q].lde_trace_evaluations.clear());
        addq!("last trace evaluation missing", |p, q, _| { p.deep_poly_openings[q].lde_trace_evaluations.pop(); });
        addq!("auxiliary trace evaluations missing", |p, q, _| p.deep_poly_openings[q].lde_trace_evaluations.truncate(cols() - aux()));
        addq!("extra trace evaluation", |p, q, f| p.deep_poly_openings[q].lde_trace_evaluations.push(f("xt")));
        addq!("no trace path", |p, q, _| p.deep_poly_openings[q].lde_trace_merkle_proofs.clear());
        addq!("auxiliary trace path missing", |p, q, _| { p.deep_poly_openings[q].lde_trace_merkle_proofs.pop(); });
        addq!("extra trace path", |p, q, _| p.deep_poly_openings[q].lde_trace_merkle_proofs.push(Proof { merkle_path: vec![] }));
    }
    // consistent changes of several parts
    add!("one FRI layer fewer everywhere", |p, _| {
        p.fri_layers_merkle_roots.pop();
        for q in p.query_list.iter_mut() {
            q.layers_evaluations.pop();
            q.layers_evaluations_sym.pop();
            q.layers_auth_paths.pop();
            q.layers_auth_paths_sym.pop();
        }
    });
    add!("one FRI layer more everywhere", |p, f| {
        p.fri_layers_merkle_roots.push(label("x"));
        for (i, q) in p.query_list.iter_mut().enumerate() {
            q.layers_evaluations.push(f(&format!("xe{}", i)));
            q.layers_evaluations_sym.push(f(&format!("xs{}", i)));
            q.layers_auth_paths.push(Proof { merkle_path: vec![label("xa")] });
            q.layers_auth_paths_sym.push(Proof { merkle_path: vec![label("xb")] });
        }
    });
    add!("one query fewer everywhere", |p, _| {
        p.query_list.pop();
        p.deep_poly_openings.pop();
    });
    add!("no query anywhere", |p, _| {
        p.query_list.clear();
        p.deep_poly_openings.clear();
    });
    add!("no auxiliary commitment anywhere", |p, _| {
        p.lde_trace_merkle_roots.pop();
        for q in p.deep_poly_openings.iter_mut() {
            q.lde_trace_merkle_proofs.pop();
        }
    });
    add!("no FRI layer anywhere", |p, _| {
        p.fri_layers_merkle_roots.clear();
        for q in p.query_list.iter_mut() {
            q.layers_evaluations.truncate(1);
            q.layers_evaluations_sym.clear();
            q.layers_auth_paths.clear();
            q.layers_auth_paths_sym.clear();
        }
    });
    for t in [0usize, 1, 2, 3, 5, 6, 7, 8, 12, 16, 24, 32, 1 << 63, (1 << 63) + 4, usize::MAX, usize::MAX - 3] {
        let name: &'static str = Box::leak(format!("trace length {}", t).into_boxed_str());
        if t != cfg.n {
            add!(name, move |p: &mut SProof, _: &dyn Fn(&str) -> FE| p.trace_length = t);
        }
    }
    v
}
fn decide(cfg: &Cfg, name: &str, build: &dyn Fn(&dyn Fn(&str) -> FE) -> SProof) -> bool {
    let p = build(&|n| s(n));
    let pi = public();
    install_challenges_at(cfg, Ch::last_value(p.fri_layers_merkle_roots.len()) + 1, None);
    let found = std::cell::Cell::new(false);
    let start = std::time::Instant::now();
    let ex = explore_until(
        3000,
        true,
        Rc::new(generic_challenges),
        || verify::<F, HAir>(&p, &pi, &cfg.options()),
        |atoms, path| {
            if let Outcome::Value(false) = path.outcome {
                return start.elapsed().as_secs() > 20;
            }
            let mut eqs = vec![];
            let mut neqs = sym::assumed_nonzero();
            for (i, b) in &path.literals {
                if let Atom::Zero(v) = &atoms[*i] {
                    if *b { eqs.push(*v) } else { neqs.push(*v) }
                }
            }
            let t = std::time::Instant::now();
            let r = ff::solve(&eqs, &neqs);
            report::query(t);
            found.set(!matches!(r, ff::Res::Unsat));
            found.get()
        },
    );
    hooks::set_challenge(None);
    for path in ex.paths.iter().rev().take(if found.get() { 1 } else { 0 }) {
        if let Outcome::Value(false) = path.outcome {
            continue;
        }
        let mut eqs = vec![];
        let mut neqs = sym::assumed_nonzero();
        let mut merkle = vec![];
        for (i, b) in &path.literals {
            match &ex.atoms[*i] {
                Atom::Zero(v) => if *b { eqs.push(*v) } else { neqs.push(*v) },
                Atom::Merkle(q) => merkle.push((q.clone(), *b)),
            }
        }
        let t = std::time::Instant::now();
        let r = ff::solve(&eqs, &neqs);
        report::query(t);
        match r {
            ff::Res::Unsat => continue,
            ff::Res::Unknown(u) => {
                report::inconclusive(name, u);
                return false;
            }
            ff::Res::Sat(m) => {
                let value = |n: &str| m.get(n).cloned().unwrap_or_else(|| *prf_fe(n, 7).value());
                let q = build(&|n| FE::from_raw_base(value(n)));
                let merkle: Vec<_> = merkle
                    .into_iter()
                    .map(|(mut q, b)| {
                        q.leaf = vcheck::eval_bytes(&q.leaf, &value);
                        (q, b)
                    })
                    .collect();
                let got = vcheck::replay_proof(cfg, &q, &value, merkle);
                let d = json!({"deviation": name, "verify on the concrete proof": format!("{:?}", got),
                    "path": path.literals.iter().map(|(i, b)| { let mut t = ex.atoms[*i].show(); t.truncate(200); format!("{}: {}", t, b) }).collect::<Vec<_>>(),
                    "values": m.iter().map(|(k, v)| format!("{} = {}", k, v)).collect::<Vec<_>>()});
                match got {
                    Outcome::Value(false) => report::inconclusive(name, json!({"reason": "does not replay", "detail": d})),
                    _ => report::violated(name, d),
                }
                return false;
            }
        }
    }
    if !ex.complete {
        report::inconclusive(name, "too many paths or too much time");
        return false;
    }
    true
}
fn main() {
    report::function("starks::verifier::verify (shape of the proof)");
    report::bound("harness AIR, trace length 4, blowup 2, 2 queries; every listed deviation alone and every pair of them (thorough: also on trace length 8), all field elements symbolic");
    report::assume("trace lengths between those listed and 2^58 whose domain does not fit in memory are outside the bound");
    let cfgs = if engine::thorough() {
        vec![Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![1, 6] }, Cfg { n: 8, blowup: 4, offset: 3, iotas: vec![3, 30] }]
    } else {
        vec![Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![1, 6] }]
    };
    for cfg in cfgs {
        let n = changes(&cfg).len();
        // the right shape is accepted
        sym::reset();
        {
            let p = proof_with(&cfg, &|n| s(n));
            let pi = public();
            install_challenges(&cfg, None);
            let ok = Rc::new(|a: &Atom| generic_challenges(a).or(Some(true)));
            let ex = explore_with(1, true, ok, || verify::<F, HAir>(&p, &pi, &cfg.options()));
            hooks::set_challenge(None);
            report::witness("the well-shaped proof can be accepted", matches!(ex.paths[0].outcome, Outcome::Value(true)));
        }
        let mut failed = std::collections::HashSet::new();
        let mut work: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
        for i in 0..n {
            work.extend((i + 1..n).map(|j| (i, j)));
        }
        {
            for (i, j) in work {
                // a dozen counterexamples is enough, and pairs are for when single deviations are rejected
                if failed.len() >= 12 || (i != j && !failed.is_empty()) {
                    break;
                }
                sym::reset();
                let ch = changes(&cfg);
                let name = if i == j { format!("n={}: {}", cfg.n, ch[i].0) } else { format!("n={}: {} and {}", cfg.n, ch[i].0, ch[j].0) };
                let (a, b) = (&ch[i], &ch[j]);
                let mut skip = false;
                let build = |f: &dyn Fn(&str) -> FE| {
                    let mut p = proof_with(&cfg, f);
                    a.1(&mut p, f);
                    if i != j {
                        b.1(&mut p, f);
                    }
                    p
                };
                // two changes may cancel out
                if i != j {
                    if let Outcome::Value(p) = capture(|| build(&|n| s(n))) {
                        skip = same_shape(&p, &proof_with(&cfg, &|n| s(n)));
                    } else {
                        skip = true;
                    }
                }
                if skip {
                    continue;
                }
                report::guard(&name.clone(), || {
                    if decide(&cfg, &name, &build) {
                        report::discharged(&name, "no accepting path and no panic");
                    } else if i == j {
                        failed.insert(i);
                    }
                });
            }
        }
    }
    // every count fits the claimed trace length, which is absurd
    {
        let cfg = Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![1, 6] };
        let order = 58usize;
        let build = |f: &dyn Fn(&str) -> FE| {
            let mut p = proof_with(&cfg, f);
            let path = |len: usize| lambdaworks_crypto::merkle_tree::proof::Proof { merkle_path: vec![label("node"); len] };
            p.trace_length = 1 << order;
            p.fri_layers_merkle_roots = (0..order).map(|k| label(&format!("fri root {}", k))).collect();
            for q in p.query_list.iter_mut() {
                q.layers_evaluations = (0..order).map(|k| f(&format!("e{}", k))).collect();
                q.layers_evaluations_sym = (0..order).map(|k| f(&format!("s{}", k))).collect();
                q.layers_auth_paths = (0..order).map(|k| path(order + 1 - k)).collect();
                q.layers_auth_paths_sym = q.layers_auth_paths.clone();
            }
            for q in p.deep_poly_openings.iter_mut() {
                q.lde_composition_poly_proof = path(order + 1);
                q.lde_trace_merkle_proofs = vec![path(order + 1), path(order + 1)];
            }
            p
        };
        sym::reset();
        let name = "a proof consistent with 2^58 rows";
        report::guard(name, || {
            if decide(&cfg, name, &build) {
                report::discharged(name, "no accepting path and no panic");
            }
        });
    }
    report::finish()
}
fn shape(p: &SProof) -> String {
    let f = &p.trace_ood_frame_evaluations;
    format!(
        "{} {} {} {} {:?} {:?}",
        p.trace_length,
        p.lde_trace_merkle_roots.len(),
        p.fri_layers_merkle_roots.len(),
        if f.num_columns() == 0 { 0 } else { f.num_rows() * 1000 + f.num_columns() % 1000 },
        p.query_list
            .iter()
            .map(|q| (
                q.layers_evaluations.len(),
                q.layers_evaluations_sym.len(),
                q.layers_auth_paths.iter().map(|x| x.merkle_path.len()).collect::<Vec<_>>(),
                q.layers_auth_paths_sym.iter().map(|x| x.merkle_path.len()).collect::<Vec<_>>()
            ))
            .collect::<Vec<_>>(),
        p.deep_poly_openings
            .iter()
            .map(|q| (
                q.lde_trace_evaluations.len(),
                q.lde_trace_merkle_proofs.iter().map(|x| x.merkle_path.len()).collect::<Vec<_>>(),
                q.lde_composition_poly_proof.merkle_path.len()
            ))
            .collect::<Vec<_>>()
    )
}
fn same_shape(a: &SProof, b: &SProof) -> bool {
    shape(a) == shape(b)
}
