//! C05: the verifier enforces the proof of work, the prover's nonce is the smallest that does it.
//! (That the counting function counts the zero bits of the digest is decided by Kani.)
use engine::explore::{capture, explore_with, Atom, Outcome};
use engine::hair::*;
use engine::hooks::{self, Event};
use engine::pspec;
use engine::vspec::*;
use engine::{c, report, sym, F, FE};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use serde_json::json;
use sha3::control::set_digest;
use std::cell::RefCell;
use std::rc::Rc;

const NONCE: u64 = 0x91a2b3c4d5e6f708;
/// A digest whose counted bits are exactly `z` zeros.
fn digest(z: u32, salt: u64) -> [u8; 32] {
    let mut d = [0xff; 32];
    let head = if z >= 64 { 0 } else { (salt | 1) << z };
    d[..8].copy_from_slice(&head.to_be_bytes());
    d
}
type Seen = Rc<RefCell<Vec<Vec<u8>>>>;
/// Digests of 40 bytes (challenge and nonce) have as many zeros as `zeros` says of the nonce.
fn install(zeros: Rc<dyn Fn(u64) -> u32>) -> Seen {
    let seen: Seen = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    set_digest(Some(Rc::new(move |data: &[u8]| {
        if data.len() != 40 {
            return None;
        }
        s2.borrow_mut().push(data.to_vec());
        let n = u64::from_le_bytes(data[32..].try_into().unwrap());
        Some(digest(zeros(n), n.wrapping_mul(0x9e3779b97f4a7c15)))
    })));
    seen
}
fn opts(cfg: &Cfg, g: u8) -> ProofOptions {
    let mut o = cfg.options();
    o.grinding_factor = g;
    o
}
/// The verifier on the symbolic proof: every other condition holds, the digest has `z` zeros.
fn verifier(cfg: &Cfg) {
    let pi = public();
    let mut p = proof_with(cfg, &|n| sym::symbol(n));
    p.nonce = NONCE;
    let hp = HPub { a: c(2), b: c(3), c: c(5) };
    for g in 0..=255u16 {
        let name = format!("verify[n={} blowup={} queries={}]: grinding factor {} is enforced", cfg.n, cfg.blowup, cfg.iotas.len(), g);
        let mut bad = None;
        let zs: Vec<u32> = (0..=64).collect();
        let t = std::time::Instant::now();
        for z in zs.iter().copied() {
            let seen = install(Rc::new(move |_| z));
            install_challenges(cfg, None);
            let known = Rc::new(|a: &Atom| Some(generic_challenges(a).unwrap_or(true)));
            let ex = explore_with(2, true, known, || verify::<F, HAir>(&p, &pi, &opts(cfg, g as u8)));
            hooks::set_challenge(None);
            set_digest(None);
            let got = ex.paths.iter().map(|p| &p.outcome).next();
            let accepted = matches!(got, Some(Outcome::Value(true)));
            if matches!(got, Some(Outcome::Panic(_))) || accepted != (z >= g as u32) || ex.paths.len() != 1 {
                bad = Some((z, format!("{:?}", got)));
                break;
            }
            // what is hashed: the challenge drawn after the last FRI value, and the proof's nonce
            let want = sym::tagged_bytes(&ch(Ch::last_value(cfg.layers())), Ch::last_value(cfg.layers()) as u64 % cfg.lde() as u64);
            let ok = seen.borrow().iter().any(|d| d[..32] == want && d[32..] == NONCE.to_le_bytes());
            if !ok {
                bad = Some((z, "the proof's nonce and challenge are not what is hashed".into()));
                break;
            }
        }
        report::query(t);
        match bad {
            None => report::discharged(&name, format!("{} numbers of zero bits, everything else symbolic", zs.len())),
            Some((z, what)) => {
                let _seen = install(Rc::new(move |_| z));
                let r = capture(|| {
                    // an honest proof whose proof of work has that many zeros
                    let honest = prove::<F, HAir>(&main_trace(cfg.n, &hp), &hp, &opts(cfg, 0)).expect("the prover fails");
                    verify::<F, HAir>(&honest, &hp, &opts(cfg, g as u8))
                });
                set_digest(None);
                let wrong = match &r {
                    Outcome::Value(v) => *v != (z >= g as u32),
                    Outcome::Panic(_) => true,
                };
                let d = json!({"zero bits of the digest": z, "what": what, "replay on an honest proof": format!("{:?}", r)});
                if wrong || what.starts_with("the proof's") {
                    report::violated(&name, d)
                } else {
                    report::inconclusive(&name, d)
                }
            }
        }
    }
}
/// Which numbers of zeros the nonces 0, 1, 2, ... have.
fn prover(cfg: &Cfg) {
    let n = cfg.n;
    let x: Vec<FE> = (0..n).map(|i| engine::s(&format!("x{}", i))).collect();
    let y: Vec<FE> = (0..n).map(|i| engine::s(&format!("y{}", i))).collect();
    let cases: Vec<(u8, Vec<u32>)> = vec![
        (0, vec![0, 5]),
        (1, vec![0, 0, 1]),
        (1, vec![3]),
        (5, vec![4, 4, 3, 5, 9]),
        (5, vec![0, 1, 2, 3, 4, 64]),
        (9, vec![8, 0, 8, 10, 9]),
        (20, vec![19, 19, 19, 19, 21, 20]),
        (64, vec![63, 0, 62, 64]),
        (33, vec![31, 32, 1, 33]),
    ];
    for (g, zeros) in cases {
        let name = format!("prove[n={} blowup={}]: factor {} with candidates {:?}", n, cfg.blowup, g, zeros);
        let z2 = zeros.clone();
        let t = std::time::Instant::now();
        report::guard(&name.clone(), || {
            let seen = install(Rc::new(move |n| z2.get(n as usize).cloned().unwrap_or(64)));
            let want = zeros.iter().position(|z| *z >= g as u32).unwrap_or(zeros.len()) as u64;
            hooks::start_log();
            pspec::install(cfg, Rc::new(|k| pspec::random_challenge(k, 5)));
            let tr = lambdaworks_stark::starks::trace::TraceTable::<F>::new_from_cols(&[x.clone(), y.clone()]);
            let r = capture(|| prove::<F, HAir>(&tr, &HPub { a: engine::s("a"), b: engine::s("b"), c: engine::s("c") }, &opts(cfg, g)));
            hooks::set_challenge(None);
            set_digest(None);
            let log = hooks::take_log();
            report::query(t);
            let p = match r {
                Outcome::Value(Ok(p)) => p,
                other => {
                    return report::violated(&name, json!({"the prover": match other { Outcome::Panic(p) => p, _ => "fails".into() }}))
                }
            };
            // the challenge drawn just before the nonce is absorbed
            let at = log.iter().rposition(|e| matches!(e, Event::Append(b) if b.ends_with(&p.nonce.to_be_bytes()) || b.ends_with(&p.nonce.to_le_bytes())));
            let before = at.and_then(|i| log[..i].iter().rev().find_map(|e| match e {
                Event::Challenge(b) => Some(b.to_vec()),
                _ => None,
            }));
            let hashed = seen.borrow().iter().any(|d| Some(d[..32].to_vec()) == before && d[32..] == p.nonce.to_le_bytes());
            if p.nonce != want || !hashed {
                report::violated(&name, json!({"nonce in the proof": p.nonce, "smallest that satisfies the factor": want,
                    "hashed with the proof-of-work challenge": hashed}))
            } else {
                report::discharged(&name, format!("nonce {} for every trace", want))
            }
        });
    }
}
fn main() {
    for f in ["starks::verifier::verify (transcript replay and proof-of-work check)", "starks::prover::prove (grinding)"] {
        report::function(f);
    }
    report::bound("engine E1: every grinding factor 0..=255; with every number of zero bits 0..=64; all other conditions of the proof hold, its values symbolic; trace length 4; prover: nine lists of candidate digests of up to 6 nonces");
    report::assume("the digest of (challenge, nonce) is chosen by the check; every other digest is Keccak's");
    sym::reset();
    report::guard("verifier", || verifier(&Cfg { n: 4, blowup: 4, offset: 3, iotas: vec![6] }));
    sym::reset();
    report::guard("prover", || prover(&Cfg { n: 4, blowup: 4, offset: 3, iotas: vec![1, 6] }));
    report::finish()
}
