//! C08: every challenge binds the messages sent before it; prover and verifier derive the same challenges.
use engine::explore::{capture, explore_with, Atom, Outcome};
use engine::hair::*;
use engine::hooks::{self, Event};
use engine::must::always;
use engine::vspec::*;
use engine::{c, ff, prf_fe, report, sym, F, FE, U256};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{proof::options::ProofOptions, prover::prove, verifier::verify};
use serde_json::json;
use std::rc::Rc;

const NONCE: u64 = 0x91a2b3c4d5e6f708;
/// The symbolic proof with symbolic commitments as well.
fn proof(cfg: &Cfg, f: &dyn Fn(&str) -> FE) -> SProof {
    let mut p = proof_with(cfg, f);
    let root = |n: &str| -> [u8; 32] { f(n).to_bytes_be().try_into().unwrap() };
    p.lde_trace_merkle_roots = [root("root_main"), root("root_aux")][..segments().len()].to_vec();
    p.composition_poly_root = root("root_comp");
    p.fri_layers_merkle_roots = (0..cfg.layers()).map(|k| root(&format!("root_fri{}", k))).collect();
    p
}
/// (role of each challenge, the messages sent since the previous one)
fn schedule(cfg: &Cfg) -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let mut waiting = vec!["root_main".to_string()];
    for i in 0..shape().rap {
        v.push((format!("AIR challenge {}", i), std::mem::take(&mut waiting)));
    }
    if aux() > 0 {
        waiting.push("root_aux".into());
    }
    for i in 0..2 * (nb() + nt()) {
        v.push((format!("constraint coefficient {}", i), std::mem::take(&mut waiting)));
    }
    v.push(("z".into(), vec!["root_comp".into()]));
    let mut ood = vec!["H1".to_string(), "H2".into()];
    for r in 0..rows() {
        for col in 0..cols() {
            ood.push(format!("ood_{}_{}", col, r));
        }
    }
    for i in 0..2 + rows() * cols() {
        v.push((format!("DEEP coefficient {}", i), if i == 0 { ood.clone() } else { vec![] }));
    }
    for k in 0..cfg.layers() {
        v.push((format!("folding challenge {}", k), vec![format!("root_fri{}", k)]));
    }
    v.push(("the proof-of-work challenge".into(), vec!["last".into()]));
    for q in 0..cfg.iotas.len() {
        v.push((format!("query {}", q), if q == 0 { vec!["nonce".into()] } else { vec![] }));
    }
    v
}
fn run_verify(cfg: &Cfg, p: &SProof, pi: &HPub) -> Vec<Event> {
    hooks::set_merkle(Some(Rc::new(|_: &hooks::MerkleQuery| true)));
    hooks::start_log();
    let r = capture(|| verify::<F, HAir>(p, pi, &cfg.options()));
    let log = hooks::take_log();
    hooks::set_merkle(None);
    if let Outcome::Panic(x) = r {
        panic!("the verifier panics: {}", x)
    }
    log
}
/// The log cut at the challenges: bytes absorbed before the k-th one.
fn cut(log: &[Event]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut cur = vec![];
    for e in log {
        match e {
            Event::Append(b) => cur.extend(b),
            Event::Challenge(_) => out.push(std::mem::take(&mut cur)),
        }
    }
    out
}
fn chunk_value(b: &[u8]) -> Option<FE> {
    if b.len() != 32 {
        return None;
    }
    FE::from_bytes_be(b).ok().filter(|v| sym::is_sym(v.value()))
}
fn binding(cfg: &Cfg) {
    sym::reset();
    let name = format!("verify[{} AIR n={} blowup={} queries={}]", shape().name, cfg.n, cfg.blowup, cfg.iotas.len());
    report::guard(&name.clone(), || {
        let pi = HPub { a: c(2), b: c(3), c: c(4) };
        let mut p = proof(cfg, &|n| sym::symbol(n));
        p.nonce = NONCE;
        install_challenges(cfg, None);
        let known = Rc::new(|a: &Atom| Some(generic_challenges(a).unwrap_or(true)));
        let ex = explore_with(2, false, known, || run_verify(cfg, &p, &pi));
        hooks::set_challenge(None);
        let log = match &ex.paths[0].outcome {
            Outcome::Value(v) => v.clone(),
            Outcome::Panic(x) => panic!("{}", x),
        };
        let parts = cut(&log);
        let sched = schedule(cfg);
        let g = format!("{}: the verifier draws the challenges of the protocol", name);
        if parts.len() < sched.len() {
            report::violated(&g, json!({"challenges drawn": parts.len(), "protocol": sched.len()}));
            return;
        }
        report::discharged(&g, format!("{} challenges", parts.len()));
        let prime = |v: &FE| sym::substitute(v, &|n| Some(sym::symbol(&format!("{}'", n))));
        let mut eqs: Vec<U256> = vec![];
        let mut nonce = false;
        let mut sent: Vec<String> = vec![];
        for (k, (role, msgs)) in sched.iter().enumerate() {
            sent.extend(msgs.iter().cloned());
            let mut rest: &[u8] = &parts[k];
            while !rest.is_empty() {
                if rest.starts_with(&NONCE.to_be_bytes()) {
                    nonce = true;
                    rest = &rest[8..];
                } else if rest.len() >= 32 {
                    if let Some(v) = chunk_value(&rest[..32]) {
                        eqs.push(*(v - prime(&v)).value());
                    }
                    rest = &rest[32..];
                } else {
                    break; // constant bytes
                }
            }
            for m in &sent {
                let g = format!("{}: {} binds {}", name, role, m);
                let t = std::time::Instant::now();
                let free = if m == "nonce" {
                    if nonce {
                        ff::Res::Unsat
                    } else {
                        ff::Res::Sat(Default::default())
                    }
                } else {
                    ff::solve(&eqs, &[*(sym::symbol(m) - sym::symbol(&format!("{}'", m))).value()])
                };
                report::query(t);
                match free {
                    ff::Res::Unsat => report::discharged(&g, format!("equal transcripts force equal messages ({} absorbed values)", eqs.len())),
                    ff::Res::Unknown(u) => report::inconclusive(&g, u),
                    ff::Res::Sat(model) => {
                        // two concrete proofs that differ in this message: is the challenge the same?
                        let value = |n: &str| model.get(n).cloned().unwrap_or_else(|| *prf_fe(n.trim_end_matches('\''), 8).value());
                        let log_of = |second: bool| {
                            let mut p = proof(cfg, &|n| {
                                FE::from_raw_base(if second { value(&format!("{}'", n)) } else { value(n) })
                            });
                            p.nonce = if second && m == "nonce" { NONCE + 1 } else { NONCE };
                            run_verify(cfg, &p, &pi)
                        };
                        let ch = |l: &[Event]| l.iter().filter_map(|e| if let Event::Challenge(b) = e { Some(*b) } else { None }).nth(k);
                        let (a, b) = (ch(&log_of(false)), ch(&log_of(true)));
                        let d = json!({"config": format!("{:?}", cfg), "message": m, "challenge": role,
                            "values": model.iter().map(|(k, v)| format!("{} = {}", k, v)).collect::<Vec<_>>(),
                            "challenge for the first proof": format!("{:02x?}", a), "for the second": format!("{:02x?}", b)});
                        if a == b {
                            report::violated(&g, d)
                        } else {
                            report::inconclusive(&g, json!({"reason": "does not replay", "detail": d}))
                        }
                    }
                }
            }
        }
        report::witness(&format!("{}: something is absorbed", name), !eqs.is_empty());
    });
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a == b {
        return true;
    }
    a.chunks(32).zip(b.chunks(32)).all(|(x, y)| {
        x == y || matches!((FE::from_bytes_be(x), FE::from_bytes_be(y)), (Ok(u), Ok(v)) if x.len() == 32 && u == v)
    })
}
fn agreement(n: usize, o: ProofOptions, all: bool) {
    sym::reset();
    always(&format!("prover and verifier transcripts[{} AIR n={} {:?}]", shape().name, n, o), &|s| {
        let pi = HPub { a: s("a"), b: if all { s("b") } else { c(2) }, c: if all { s("c") } else { c(3) } };
        hooks::start_log();
        let proof = prove::<F, HAir>(&main_trace(n, &pi), &pi, &o);
        let plog = hooks::take_log();
        let proof = proof.map_err(|e| format!("{:?}", e))?;
        hooks::start_log();
        verify::<F, HAir>(&proof, &pi, &o);
        let vlog = hooks::take_log();
        let ch = |l: &[Event]| -> Vec<[u8; 32]> { l.iter().filter_map(|e| if let Event::Challenge(b) = e { Some(*b) } else { None }).collect() };
        let (a, b) = (cut(&plog), cut(&vlog));
        if a.len() != b.len() || ch(&plog) != ch(&vlog) {
            return Err("prover and verifier derive different challenges".into());
        }
        if let Some(k) = (0..a.len()).find(|k| !same(&a[*k], &b[*k])) {
            return Err(format!("prover and verifier absorb different messages before challenge {}", k));
        }
        // and the prover absorbs what it sends
        let layers = proof.fri_layers_merkle_roots.len();
        let cfg = Cfg { n, blowup: o.blowup_factor, offset: o.coset_offset, iotas: vec![0; o.fri_number_of_queries] };
        let sched = schedule(&cfg);
        if sched.len() != a.len() || layers != cfg.layers() {
            return Err("the prover does not draw the challenges of the protocol".into());
        }
        let mut want: Vec<Vec<u8>> = vec![];
        for (_, msgs) in &sched {
            let mut w = vec![];
            for m in msgs {
                let fe = |v: &FE| -> Vec<u8> { v.to_bytes_be().to_vec() };
                w.extend(match m.as_str() {
                    "root_main" => proof.lde_trace_merkle_roots[0].to_vec(),
                    "root_aux" => proof.lde_trace_merkle_roots[1].to_vec(),
                    "root_comp" => proof.composition_poly_root.to_vec(),
                    "H1" => fe(&proof.composition_poly_even_ood_evaluation),
                    "H2" => fe(&proof.composition_poly_odd_ood_evaluation),
                    "last" => fe(&proof.fri_last_value),
                    "nonce" => proof.nonce.to_be_bytes().to_vec(),
                    x if x.starts_with("root_fri") => proof.fri_layers_merkle_roots[x[8..].parse::<usize>().unwrap()].to_vec(),
                    x => {
                        let p: Vec<usize> = x[4..].split('_').map(|y| y.parse().unwrap()).collect();
                        fe(&proof.trace_ood_frame_evaluations.get_row(p[1])[p[0]])
                    }
                });
            }
            want.push(w);
        }
        for k in 0..a.len() {
            if !same(&a[k], &want[k]) {
                return Err(format!("before {} the prover absorbs something else than the messages it sends", sched[k].0));
            }
        }
        Ok(())
    });
}
fn main() {
    for f in ["starks::verifier::verify (transcript replay)", "starks::prover::prove (transcript)", "starks::fri::fri_commit_phase", "starks::transcript::*"] {
        report::function(f);
    }
    report::bound("harness AIR; verifier: trace length 2, 4, 8, 16, blowup 2 and 4, 1-3 queries, every commitment and claimed value symbolic, eight AIRs of other shapes (with and without auxiliary columns, 0 to 3 AIR challenges) at length 4 and 8; prover: trace length 4 and 8 with symbolic public inputs");
    report::assume("the transcript's hash is injective (collision-free); the nonce is recognised by its eight distinct bytes");
    report::assume("the shape of the proof is fixed (C06); trace length, public inputs and options are not messages of the prover");
    let mut v = vec![
        Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![5] },
        Cfg { n: 2, blowup: 4, offset: 3, iotas: vec![3, 1] },
        Cfg { n: 8, blowup: 4, offset: 7, iotas: vec![3, 9] },
        Cfg { n: 16, blowup: 2, offset: 3, iotas: vec![8, 30, 1] },
    ];
    if engine::thorough() {
        v.push(Cfg { n: 64, blowup: 8, offset: 3, iotas: vec![8, 30, 1, 100, 500] });
        v.push(Cfg { n: 1024, blowup: 2, offset: 3, iotas: vec![8] });
    }
    for cfg in &v {
        binding(cfg);
    }
    let o = |b, q, g| ProofOptions { blowup_factor: b, fri_number_of_queries: q, coset_offset: 3, grinding_factor: g };
    agreement(4, o(4, 1, 0), true);
    agreement(4, o(8, 3, 2), true);
    agreement(8, o(4, 2, 1), false);
    agreement(4, o(4, 1, 5), false);
    for s in OTHERS {
        set_shape(s);
        binding(&Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![5, 2] });
        binding(&Cfg { n: 8, blowup: 4, offset: 7, iotas: vec![3] });
        agreement(4, o(4, 2, 1), s.cols < 4);
    }
    set_shape(MIXED);
    report::finish()
}
