//! "verify accepts only if ..." for the harness AIR.
use crate::explore::{capture, explore_with, Atom, Outcome};
use crate::smt::{Sat, Solver};
use crate::vspec::*;
use crate::{ff, hair::*, hooks, prf_fe, report, sym, FE, U256};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::verifier::verify;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// Concrete bytes of a string of 32-byte chunks that may be symbols.
pub fn eval_bytes(b: &[u8], m: &dyn Fn(&str) -> U256) -> Vec<u8> {
    let mut out = vec![];
    for chunk in b.chunks(32) {
        if chunk.len() == 32 {
            let v = FE::from_bytes_be(chunk).map(|x| *x.value());
            match v {
                Ok(v) if sym::is_sym(&v) => {
                    let x = sym::eval(&v, m).unwrap_or_default();
                    out.extend(FE::from_raw_base(x).to_bytes_be());
                    continue;
                }
                _ => {}
            }
        }
        out.extend(chunk);
    }
    out
}
/// Number of challenges the verifier draws before the queries.
fn draws(cfg: &Cfg, p: &SProof, pi: &HPub) -> usize {
    let n = Rc::new(std::cell::Cell::new(0));
    let n2 = n.clone();
    hooks::set_challenge(Some(Rc::new(move |k, _| {
        n2.set(k + 1);
        sym::tagged_bytes(&ch(k), 0)
    })));
    let known = Rc::new(|a: &Atom| Some(generic_challenges(a).unwrap_or(true)));
    explore_with(1, true, known, || verify::<crate::F, HAir>(p, pi, &cfg.options()));
    hooks::set_challenge(None);
    n.get().saturating_sub(cfg.iotas.len())
}
pub fn replay_proof(cfg: &Cfg, p: &SProof, value: &dyn Fn(&str) -> U256, merkle: Vec<(hooks::MerkleQuery, bool)>) -> Outcome<bool> {
    replay_at(cfg, Ch::last_value(p.fri_layers_merkle_roots.len()) + 1, p, value, merkle)
}
fn replay_at(cfg: &Cfg, first: usize, p: &SProof, value: &dyn Fn(&str) -> U256, merkle: Vec<(hooks::MerkleQuery, bool)>) -> Outcome<bool> {
    let pi = HPub {
        a: FE::from_raw_base(value("pub_a")),
        b: FE::from_raw_base(value("pub_b")),
        c: FE::from_raw_base(value("pub_c")),
    };
    let m: HashMap<String, U256> =
        (0..cfg.first_iota().max(400))
            .map(|n| (n, format!("ch{:03}", n)))
            .map(|(i, n)| (n.clone(), fixed_challenge(i).map(|v| *v.value()).unwrap_or_else(|| value(&n))))
            .collect();
    install_challenges_at(cfg, first, Some(m));
    hooks::set_merkle(Some(Rc::new(move |q: &hooks::MerkleQuery| {
        let q = crate::explore::norm(q.clone());
        merkle.iter().find(|(k, _)| *k == q).map(|x| x.1).unwrap_or(false)
    })));
    let r = capture(|| verify::<crate::F, HAir>(p, &pi, &cfg.options()));
    hooks::set_merkle(None);
    hooks::set_challenge(None);
    r
}
pub struct Job<'a> {
    pub cfg: Cfg,
    pub name: &'a str,
    /// atoms of this query may be false; None: every query
    pub only_query: Option<usize>,
    pub max_paths: usize,
    /// conditions (by description) that may be false; the others hold
    pub free: Option<&'a dyn Fn(&str) -> bool>,
}
/// Explores `verify` on the symbolic proof and decides, for every spec atom of the given kinds,
/// that an accepting path implies it; with `converse`, that the whole spec implies acceptance.
pub fn run(job: &Job, kinds: &[Kind], converse: bool) {
    let Job { cfg, name, .. } = job;
    let pi = public();
    let held = |d: &str| match (job.only_query, job.free) {
        (_, Some(f)) => !f(d),
        (Some(q), None) => d.starts_with("query ") && !d.starts_with(&format!("query {}", q)),
        (None, None) => false,
    };
    // where foldings are given, the evaluations are the folded values
    let mut given: HashMap<String, FE> = HashMap::new();
    if job.free.is_some() {
        let half = FE::from(2u64).inv();
        for (q, iota) in cfg.iotas.iter().enumerate() {
            let mut x = cfg.lde_point(*iota);
            for k in 0..cfg.layers() - 1 {
                if held(&format!("query {}, layer {}: folding", q, k)) {
                    let name = format!("q{}_ev{}", q, k);
                    let e = given.get(&name).cloned().unwrap_or_else(|| sym::symbol(&name));
                    let s = sym::symbol(&format!("q{}_sym{}", q, k));
                    given.insert(format!("q{}_ev{}", q, k + 1), (e + s) * half + ch(Ch::zeta(k)) * (e - s) * half * x.inv());
                }
                x = x * x;
            }
        }
    }
    let p = proof_with(cfg, &|n| given.get(n).cloned().unwrap_or_else(|| sym::symbol(n)));
    let sp = spec(cfg, &p, &pi);
    let others: HashSet<Atom> = sp.iter().filter(|s| held(&s.1)).map(|s| s.2.clone()).collect();
    let known = Rc::new(move |a: &Atom| {
        if others.contains(a) {
            return Some(true);
        }
        generic_challenges(a)
    });
    // a verifier that draws other challenges than the protocol's is C08's concern
    let first = draws(cfg, &p, &pi);
    install_challenges_at(cfg, first, None);
    let ex = explore_with(job.max_paths, true, known, || verify::<crate::F, HAir>(&p, &pi, &cfg.options()));
    hooks::set_challenge(None);
    if !ex.complete {
        report::inconclusive(name, format!("more than {} paths", job.max_paths));
        return;
    }
    let mut atoms = ex.atoms.clone();
    let mut ids: HashMap<Atom, usize> = atoms.iter().cloned().enumerate().map(|(i, a)| (a, i)).collect();
    let mut spec_ids = vec![];
    for (_, _, a) in sp.iter() {
        let i = *ids.entry(a.clone()).or_insert_with(|| {
            atoms.push(a.clone());
            atoms.len() - 1
        });
        spec_ids.push(i);
    }
    let mut z = Solver::new();
    for i in 0..atoms.len() {
        z.send(&format!("(declare-const a{} Bool)", i));
    }
    for (i, a) in atoms.iter().enumerate() {
        if let Atom::Zero(v) = a {
            if !sym::is_sym(v) {
                z.send(&format!("(assert {})", if *v == U256::default() { format!("a{}", i) } else { format!("(not a{})", i) }));
            }
        }
    }
    let lits = |l: &Vec<(usize, bool)>| -> String {
        let mut s = String::from("(and true");
        for (i, b) in l {
            s += &if *b { format!(" a{}", i) } else { format!(" (not a{})", i) };
        }
        s + ")"
    };
    let mut acc = String::from("(or false");
    let mut rej = String::from("(or false");
    let mut nacc = 0;
    for p in ex.paths.iter() {
        match p.outcome {
            Outcome::Value(true) => {
                nacc += 1;
                acc += &lits(&p.literals)
            }
            _ => rej += &lits(&p.literals),
        }
    }
    z.send(&format!("(define-fun accept () Bool {}))", acc));
    z.send(&format!("(define-fun reject () Bool {}))", rej));
    report::witness(&format!("{}: some path accepts", name), nacc > 0);
    // other queries' atoms are true in a restricted exploration
    for (s, i) in sp.iter().zip(&spec_ids) {
        if held(&s.1) {
            z.send(&format!("(assert a{})", i));
        }
    }
    let nz: Vec<U256> = sym::assumed_nonzero();
    let mut goals: Vec<(String, String, Option<usize>)> = vec![];
    for ((k, d, _), i) in sp.iter().zip(&spec_ids) {
        if kinds.contains(k) && !held(d) {
            goals.push((format!("{}: accepted implies {}", name, d), format!("(and accept (not a{}))", i), Some(*i)));
        }
    }
    if converse {
        let all: String = spec_ids.iter().map(|i| format!(" a{}", i)).collect();
        goals.push((format!("{}: every condition holds implies accepted", name), format!("(and reject{})", all), None));
    }
    for (g, query, spec_atom) in goals {
        z.push();
        z.send(&format!("(assert {})", query));
        let mut rounds = 0;
        let mut unknown: Option<String> = None;
        loop {
            rounds += 1;
            match z.check() {
                Sat::Unsat => {
                    match unknown {
                        None => report::discharged(&g, format!("unsat after {} round(s), {} atoms, {} paths", rounds, atoms.len(), ex.paths.len())),
                        Some(u) => report::inconclusive(&g, u),
                    }
                    break;
                }
                Sat::Unknown => {
                    report::inconclusive(&g, "the solver gave up");
                    break;
                }
                Sat::Sat => {}
            }
            if rounds > 400 {
                report::inconclusive(&g, "too many refinement rounds");
                break;
            }
            let names: Vec<String> = (0..atoms.len()).map(|i| format!("a{}", i)).collect();
            let val = z.bools(&names);
            let mut eqs = vec![];
            let mut neqs = nz.clone();
            for (a, b) in atoms.iter().zip(&val) {
                if let Atom::Zero(v) = a {
                    if *b {
                        eqs.push(*v)
                    } else {
                        neqs.push(*v)
                    }
                }
            }
            let block = |z: &mut Solver| {
                let c: String = atoms
                    .iter()
                    .enumerate()
                    .filter(|(_, a)| matches!(a, Atom::Zero(_)))
                    .map(|(i, _)| if val[i] { format!(" (not a{})", i) } else { format!(" a{}", i) })
                    .collect();
                z.send(&format!("(assert (or false{}))", c));
            };
            match ff::solve(&eqs, &neqs) {
                ff::Res::Unsat => block(&mut z),
                ff::Res::Unknown(u) => {
                    unknown = Some(u);
                    block(&mut z)
                }
                ff::Res::Sat(m) => {
                    let value = |n: &str| m.get(n).cloned().unwrap_or_else(|| *prf_fe(n, 7).value());
                    let merkle: Vec<(hooks::MerkleQuery, bool)> = atoms
                        .iter()
                        .zip(&val)
                        .filter_map(|(a, b)| match a {
                            Atom::Merkle(q) => {
                                let mut q = q.clone();
                                q.leaf = eval_bytes(&q.leaf, &value);
                                Some((q, *b))
                            }
                            _ => None,
                        })
                        .collect();
                    let q = proof_with(cfg, &|n| match given.get(n) {
                        Some(t) => FE::from_raw_base(sym::eval(t.value(), &value).unwrap_or_default()),
                        None => FE::from_raw_base(value(n)),
                    });
                    let got = replay_at(cfg, first, &q, &value, merkle.clone());
                    let confirmed = match (&got, spec_atom) {
                        (Outcome::Value(true), Some(i)) => match &atoms[i] {
                            Atom::Zero(v) => sym::eval(v, &value).map_or(true, |x| x != U256::default()),
                            Atom::Merkle(_) => !val[i],
                        },
                        (Outcome::Value(false), None) | (Outcome::Panic(_), None) => true,
                        _ => false,
                    };
                    let detail = json!({
                        "config": format!("{:?}", cfg),
                        "real verify": format!("{:?}", got),
                        "atoms": atoms.iter().zip(&val).map(|(a, b)| { let mut t = a.show(); t.truncate(300); format!("{} : {}", t, b) }).collect::<Vec<_>>(),
                        "values": m.iter().map(|(k, v)| format!("{} = {}", k, v)).collect::<Vec<_>>(),
                    });
                    if confirmed {
                        report::violated(&g, detail);
                    } else {
                        report::inconclusive(&g, json!({"reason": "the counterexample does not replay", "detail": detail}));
                    }
                    break;
                }
            }
        }
        z.pop();
    }
}
pub fn configs() -> Vec<(Cfg, Option<usize>)> {
    let mut v = vec![
        (Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![5] }, None),
        (Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![1, 6] }, Some(0)),
        (Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![1, 6] }, Some(1)),
    ];
    for i in 0..8 {
        v.push((Cfg { n: 4, blowup: 2, offset: 7, iotas: vec![i] }, None));
    }
    v.push((Cfg { n: 8, blowup: 2, offset: 3, iotas: vec![13] }, None));
    v.push((Cfg { n: 4, blowup: 4, offset: 5, iotas: vec![9] }, None));
    v.push((Cfg { n: 4, blowup: 8, offset: 3, iotas: vec![29] }, None));
    v.push((Cfg { n: 2, blowup: 4, offset: 3, iotas: vec![2] }, None));
    v.push((Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![3, 3] }, Some(1)));
    // numbers that do not fit in a few bits
    v.push((Cfg { n: 4, blowup: 128, offset: u64::MAX, iotas: vec![77, 500] }, Some(1)));
    v.push((Cfg { n: 2, blowup: 64, offset: 1 << 40, iotas: vec![127] }, None));
    v.push((Cfg { n: 16, blowup: 4, offset: 3, iotas: vec![53] }, None));
    if crate::thorough() {
        v.push((Cfg { n: 16, blowup: 2, offset: 3, iotas: vec![30] }, None));
        for i in 0..16 {
            v.push((Cfg { n: 8, blowup: 2, offset: 7, iotas: vec![i] }, None));
            v.push((Cfg { n: 4, blowup: 4, offset: 3, iotas: vec![i] }, None));
        }
        for q in 0..3 {
            v.push((Cfg { n: 8, blowup: 4, offset: 3, iotas: vec![3, 22, 9] }, Some(q)));
        }
        for q in 0..5 {
            v.push((Cfg { n: 4, blowup: 4, offset: 3, iotas: vec![3, 12, 9, 15, 0] }, Some(q)));
        }
    }
    v
}
pub fn main(kinds: &[Kind], converse: bool) {
    for f in [
        "starks::verifier::verify and everything it calls",
        "starks::domain::Domain::new",
        "starks::transcript::*",
        "starks::traits::AIR::transition_exemptions_verifier",
        "starks::frame::Frame",
    ] {
        report::function(f);
    }
    report::bound("harness AIR with 2+2 columns, 4 transition and 5 boundary constraints, seven patterns of exempted rows; trace length 2 to 16, blowup 2 to 128, offsets up to 2^64-1, 1-2 (thorough: 5) queries at listed positions (every position of the domain for n=4, blowup 2; thorough: also for n=8 and for blowup 4); every field element of the proof, the public inputs and every challenge symbolic");
    report::bound("eight further AIRs at trace length 4 and 8 (thorough: 16): all constraints linear; one column with one constraint; a quadratic one; constraints within a row only; three auxiliary columns with three AIR challenges; frame rows that are not adjacent; 48 columns with 48 transition and 48 boundary constraints");
    report::bound("trace length 512, two AIRs, two queries: the conditions of one layer, or of one opening, or the out-of-domain equation, may be false while the others hold");
    report::bound("with more than one query, one query at a time may have false conditions");
    report::assume("challenges are arbitrary but satisfy no accidental equation among themselves (z outside the domains)");
    report::assume("Merkle openings are uninterpreted predicates over (root, position, leaf, path)");
    let variants: [[usize; 4]; 6] = [[1, 1, 1, 1], [0, 0, 0, 0], [3, 2, 1, 0], [1, 2, 3, 0], [2, 2, 0, 2], [0, 0, 4, 1]];
    for v in variants {
        set_exempt(&v);
        for cfg in [Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![6] }, Cfg { n: 8, blowup: 2, offset: 7, iotas: vec![11] }] {
            sym::reset();
            let name = format!("verify[exempted rows {:?} n={} blowup={} queries={:?}]", v, cfg.n, cfg.blowup, cfg.iotas);
            let kinds: Vec<Kind> = kinds.iter().filter(|k| **k == Kind::Ood).cloned().collect();
            if kinds.is_empty() && !converse {
                continue;
            }
            report::guard(&name.clone(), || run(&Job { cfg, name: &name, only_query: None, max_paths: 20000, free: None }, &kinds, converse));
        }
    }
    reset_exempt();
    for s in OTHERS {
        set_shape(s);
        let mut cfgs = vec![Cfg { n: 4, blowup: 2, offset: 3, iotas: vec![6] }, Cfg { n: 8, blowup: 4, offset: 7, iotas: vec![11] }];
        if crate::thorough() {
            cfgs.push(Cfg { n: 16, blowup: 2, offset: 5, iotas: vec![20] });
        }
        for cfg in cfgs {
            sym::reset();
            let name = format!("verify[{} AIR n={} blowup={} queries={:?}]", s.name, cfg.n, cfg.blowup, cfg.iotas);
            report::guard(&name.clone(), || run(&Job { cfg, name: &name, only_query: None, max_paths: 20000, free: None }, kinds, converse));
        }
    }
    // long traces: the conditions of one group at a time may be false
    for (s, blowup) in [(FAR, 4), (MIXED, 2)] {
        set_shape(s);
        let mut groups: Vec<String> = vec![];
        if kinds.contains(&Kind::Ood) {
            groups.push("H1".into());
        }
        if kinds.iter().any(|k| [Kind::Deep, Kind::TraceOpening, Kind::CompositionOpening].contains(k)) {
            groups.push("query 1: ".into());
        }
        if kinds.iter().any(|k| [Kind::Fold, Kind::FriOpening].contains(k)) {
            groups.extend((0..9).map(|k| format!("query 1, layer {}:", k)));
        }
        if converse {
            groups.push("none".into());
        }
        for g in groups {
            sym::reset();
            let cfg = Cfg { n: 512, blowup, offset: 3, iotas: vec![777, 1023] };
            let symbolic = (0..9).find(|k| g == format!("query 1, layer {}:", k));
            fix_challenges((0..cfg.layers()).filter(|k| Some(*k) != symbolic).map(|k| (Ch::zeta(k), crate::pspec::random_challenge(Ch::zeta(k), 1))).collect());
            let name = format!("verify[{} AIR n={} blowup={} queries={:?} free={}]", s.name, cfg.n, cfg.blowup, cfg.iotas, g);
            let t = std::time::Instant::now();
            report::guard(&name.clone(), || run(&Job { cfg, name: &name, only_query: None, max_paths: 20000, free: Some(&|d| d.starts_with(&g)) }, kinds, converse));
            if std::env::var("TIMES").is_ok() {
                eprintln!("{:?} {}", t.elapsed(), name);
            }
        }
    }
    fix_challenges(HashMap::new());
    set_shape(MIXED);
    for (i, (cfg, only)) in configs().into_iter().enumerate() {
        sym::reset();
        let name = format!("verify[{} n={} blowup={} queries={:?} free={:?}]", i, cfg.n, cfg.blowup, cfg.iotas, only);
        let t = std::time::Instant::now();
        report::guard(&name.clone(), || {
            run(&Job { cfg, name: &name, only_query: only, max_paths: 20000, free: None }, kinds, converse)
        });
        if std::env::var("TIMES").is_ok() {
            eprintln!("{:?} {}", t.elapsed(), name);
        }
    }
}
