//! A symbolic proof for the harness AIR, and an independent statement of what a verifier must
//! check about it.
use crate::explore::{self, Atom};
use crate::hair::*;
use crate::{hooks, sym, FE, U256};
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::options::ProofOptions,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub n: usize,
    pub blowup: u8,
    pub offset: u64,
    pub iotas: Vec<usize>,
}
impl Cfg {
    pub fn options(&self) -> ProofOptions {
        ProofOptions {
            blowup_factor: self.blowup,
            fri_number_of_queries: self.iotas.len(),
            coset_offset: self.offset,
            grinding_factor: 0,
        }
    }
    pub fn lde(&self) -> usize {
        self.n * self.blowup as usize
    }
    pub fn layers(&self) -> usize {
        self.n.trailing_zeros() as usize
    }
    /// number of the first query challenge
    pub fn first_iota(&self) -> usize {
        Ch::last_value(self.layers()) + 1
    }
    pub fn root(&self, size: usize) -> FE {
        crate::F::get_primitive_root_of_unity(size.trailing_zeros() as u64).unwrap()
    }
    pub fn lde_point(&self, i: usize) -> FE {
        FE::from(self.offset) * self.root(self.lde()).pow(i)
    }
}
/// Roles of the challenges, by their position in the transcript.
pub struct Ch;
impl Ch {
    pub fn rap() -> std::ops::Range<usize> {
        0..shape().rap
    }
    pub fn b_alpha(i: usize) -> usize {
        shape().rap + i
    }
    pub fn b_beta(i: usize) -> usize {
        shape().rap + nb() + i
    }
    pub fn t_alpha(i: usize) -> usize {
        shape().rap + 2 * nb() + i
    }
    pub fn t_beta(i: usize) -> usize {
        shape().rap + 2 * nb() + nt() + i
    }
    pub fn z() -> usize {
        shape().rap + 2 * nb() + 2 * nt()
    }
    pub fn g_even() -> usize {
        Self::z() + 1
    }
    pub fn g_odd() -> usize {
        Self::z() + 2
    }
    pub fn trace(col: usize, row: usize) -> usize {
        Self::z() + 3 + col * rows() + row
    }
    pub fn zeta(k: usize) -> usize {
        Self::z() + 3 + cols() * rows() + k
    }
    /// the challenge used for grinding
    pub fn last_value(layers: usize) -> usize {
        Self::zeta(layers)
    }
}
thread_local! {
    static FIXED: std::cell::RefCell<HashMap<usize, FE>> = RefCell::new(HashMap::new());
}
/// Makes some challenges numbers instead of symbols.
pub fn fix_challenges(v: HashMap<usize, FE>) {
    FIXED.with(|f| *f.borrow_mut() = v)
}
pub fn fixed_challenge(n: usize) -> Option<FE> {
    FIXED.with(|f| f.borrow().get(&n).cloned())
}
/// The value of the n-th challenge; `concrete` fixes it.
pub fn ch(n: usize) -> FE {
    if let Some(v) = fixed_challenge(n) {
        return v;
    }
    sym::symbol(&format!("ch{:03}", n))
}
/// Installs the challenges: the n-th one is the symbol `ch(n)` whatever was absorbed before.
/// The first eight bytes carry the query index.
pub fn install_challenges(cfg: &Cfg, concrete: Option<HashMap<String, U256>>) {
    install_challenges_at(cfg, cfg.first_iota(), concrete)
}
/// As above for a proof whose number of FRI layers moves the first query challenge.
pub fn install_challenges_at(cfg: &Cfg, first: usize, concrete: Option<HashMap<String, U256>>) {
    let iotas = cfg.iotas.clone();
    let lde = cfg.lde() as u64;
    hooks::set_challenge(Some(Rc::new(move |n, _| {
        let index = if n >= first { iotas.get(n - first).cloned().unwrap_or(0) as u64 } else { n as u64 % lde };
        match &concrete {
            None => match fixed_challenge(n) {
                Some(v) if n < first => v.to_bytes_be().try_into().unwrap(),
                _ => sym::tagged_bytes(&ch(n), index),
            },
            Some(m) => {
                if n >= first {
                    let mut b = [0u8; 32];
                    b[..8].copy_from_slice(&index.to_be_bytes());
                    b
                } else {
                    let v = m.get(&format!("ch{:03}", n)).cloned().unwrap_or_default();
                    FE::from_raw_base(v).to_bytes_be().try_into().unwrap()
                }
            }
        }
    })));
}
/// A label as a 32-byte commitment.
pub fn label(s: &str) -> [u8; 32] {
    let mut b = [0u8; 32];
    for (i, c) in s.bytes().take(32).enumerate() {
        b[i] = c;
    }
    b[31] = 0xcc;
    b
}
fn path(name: &str, len: usize) -> Proof<[u8; 32]> {
    Proof { merkle_path: (0..len).map(|i| label(&format!("{}/{}", name, i))).collect() }
}
pub type SProof = StarkProof<crate::F>;
pub fn clone_proof(p: &SProof) -> SProof {
    StarkProof {
        trace_length: p.trace_length,
        lde_trace_merkle_roots: p.lde_trace_merkle_roots.clone(),
        trace_ood_frame_evaluations: p.trace_ood_frame_evaluations.clone(),
        composition_poly_root: p.composition_poly_root,
        composition_poly_even_ood_evaluation: p.composition_poly_even_ood_evaluation,
        composition_poly_odd_ood_evaluation: p.composition_poly_odd_ood_evaluation,
        fri_layers_merkle_roots: p.fri_layers_merkle_roots.clone(),
        fri_last_value: p.fri_last_value,
        query_list: p.query_list.clone(),
        deep_poly_openings: p.deep_poly_openings.clone(),
        nonce: p.nonce,
    }
}
/// The proof whose every field element is produced by `f(name)`.
pub fn proof_with(cfg: &Cfg, f: &dyn Fn(&str) -> FE) -> SProof {
    let depth = cfg.lde().trailing_zeros() as usize;
    let layers = cfg.layers();
    let mut frame = vec![];
    for r in 0..rows() {
        for c in 0..cols() {
            frame.push(f(&format!("ood_{}_{}", c, r)));
        }
    }
    StarkProof {
        trace_length: cfg.n,
        lde_trace_merkle_roots: [label("main root"), label("aux root")][..segments().len()].to_vec(),
        trace_ood_frame_evaluations: Frame::new(frame, cols()),
        composition_poly_root: label("composition root"),
        composition_poly_even_ood_evaluation: f("H1"),
        composition_poly_odd_ood_evaluation: f("H2"),
        fri_layers_merkle_roots: (0..layers).map(|k| label(&format!("fri root {}", k))).collect(),
        fri_last_value: f("last"),
        query_list: (0..cfg.iotas.len())
            .map(|q| FriDecommitment {
                layers_auth_paths_sym: (0..layers).map(|k| path(&format!("q{} sym {}", q, k), depth - k)).collect(),
                layers_evaluations_sym: (0..layers).map(|k| f(&format!("q{}_sym{}", q, k))).collect(),
                layers_auth_paths: (0..layers).map(|k| path(&format!("q{} pt {}", q, k), depth - k)).collect(),
                layers_evaluations: (0..layers).map(|k| f(&format!("q{}_ev{}", q, k))).collect(),
            })
            .collect(),
        deep_poly_openings: (0..cfg.iotas.len())
            .map(|q| DeepPolynomialOpenings {
                lde_composition_poly_proof: path(&format!("q{} comp", q), depth),
                lde_composition_poly_even_evaluation: f(&format!("q{}_h1", q)),
                lde_composition_poly_odd_evaluation: f(&format!("q{}_h2", q)),
                lde_trace_merkle_proofs: ["main", "aux"][..segments().len()].iter().map(|s| path(&format!("q{} {}", q, s), depth)).collect(),
                lde_trace_evaluations: (0..cols()).map(|c| f(&format!("q{}_t{}", q, c))).collect(),
            })
            .collect(),
        nonce: 0,
    }
}
pub fn public() -> HPub {
    HPub { a: sym::symbol("pub_a"), b: sym::symbol("pub_b"), c: sym::symbol("pub_c") }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Ood,
    Fold,
    FriOpening,
    Deep,
    TraceOpening,
    CompositionOpening,
}
/// What has to hold for the proof to be accepted: (kind, description, atom).
pub fn spec(cfg: &Cfg, p: &SProof, pi: &HPub) -> Vec<(Kind, String, Atom)> {
    let mut out = vec![];
    let one = FE::one();
    let g = cfg.root(cfg.n);
    let z = ch(Ch::z());
    let rap: Vec<FE> = Ch::rap().map(ch).collect();
    let t = |c: usize, r: usize| p.trace_ood_frame_evaluations.get_row(r)[c];
    // --- composition polynomial at z
    let bound = shape().bound * cfg.n;
    let boundary = (shape().boundary)(cfg.n, pi, &rap);
    let mut h = FE::zero();
    for (i, (col, step, value)) in boundary.iter().enumerate() {
        let adj = ch(Ch::b_alpha(i)) * z.pow(bound - cfg.n) + ch(Ch::b_beta(i));
        h = h + (t(*col, 0) - *value) * (z - g.pow(*step)).inv() * adj;
    }
    let frame: Vec<Vec<FE>> = (0..rows()).map(|r| (0..cols()).map(|c| t(c, r)).collect()).collect();
    let cs = (shape().transition)(&frame, &rap);
    let zerofier = (z.pow(cfg.n) - one).inv();
    for i in 0..nt() {
        let adj = ch(Ch::t_alpha(i)) * z.pow(bound - cfg.n * (shape().degrees[i] - 1)) + ch(Ch::t_beta(i));
        let mut e = one;
        for k in 1..=exempt()[i] {
            e = e * (z - g.pow(cfg.n - k));
        }
        h = h + cs[i] * zerofier * e * adj;
    }
    let claimed = p.composition_poly_even_ood_evaluation + z * p.composition_poly_odd_ood_evaluation;
    out.push((Kind::Ood, "H1(z^2) + z H2(z^2) is the composition of the constraints at z".into(), Atom::zero(&(claimed - h))));
    // --- per query
    let bytes = |vs: &[FE]| -> Vec<u8> { vs.iter().flat_map(|v| v.to_bytes_be()).collect() };
    let nodes = |m: &Proof<[u8; 32]>| -> Vec<Vec<u8>> { m.merkle_path.iter().map(|n| n.to_vec()).collect() };
    for (q, iota) in cfg.iotas.iter().enumerate() {
        let d = &p.deep_poly_openings[q];
        let x = cfg.lde_point(*iota);
        let te = &d.lde_trace_evaluations;
        let mut deep = FE::zero();
        for c in 0..cols() {
            for (r, o) in shape().offsets.iter().enumerate() {
                deep = deep + ch(Ch::trace(c, r)) * (te[c] - t(c, r)) * (x - z * g.pow(*o)).inv();
            }
        }
        let den = (x - z * z).inv();
        deep = deep
            + ch(Ch::g_even()) * (d.lde_composition_poly_even_evaluation - p.composition_poly_even_ood_evaluation) * den
            + ch(Ch::g_odd()) * (d.lde_composition_poly_odd_evaluation - p.composition_poly_odd_ood_evaluation) * den;
        let fri = &p.query_list[q];
        out.push((
            Kind::Deep,
            format!("query {}: first FRI evaluation is the DEEP polynomial at the queried point", q),
            Atom::zero(&(fri.layers_evaluations[0] - deep)),
        ));
        out.push((
            Kind::CompositionOpening,
            format!("query {}: composition polynomial opening", q),
            Atom::merkle(
                &p.composition_poly_root,
                *iota,
                bytes(&[d.lde_composition_poly_even_evaluation, d.lde_composition_poly_odd_evaluation]),
                nodes(&d.lde_composition_poly_proof),
            ),
        ));
        for (i, (root, range)) in p.lde_trace_merkle_roots.iter().zip(segments()).enumerate() {
            out.push((
                Kind::TraceOpening,
                format!("query {}: {} trace opening", q, if i == 0 { "main" } else { "auxiliary" }),
                Atom::merkle(root, *iota, bytes(&te[range]), nodes(&d.lde_trace_merkle_proofs[i])),
            ));
        }
        let two_inv = FE::from(2u64).inv();
        let mut point = x;
        let mut size = cfg.lde();
        for k in 0..cfg.layers() {
            let (e, s) = (fri.layers_evaluations[k], fri.layers_evaluations_sym[k]);
            let root = &p.fri_layers_merkle_roots[k];
            out.push((
                Kind::FriOpening,
                format!("query {}, layer {}: opening", q, k),
                Atom::merkle(root, iota % size, bytes(&[e]), nodes(&fri.layers_auth_paths[k])),
            ));
            out.push((
                Kind::FriOpening,
                format!("query {}, layer {}: symmetric opening", q, k),
                Atom::merkle(root, (iota % size + size / 2) % size, bytes(&[s]), nodes(&fri.layers_auth_paths_sym[k])),
            ));
            let folded = (e + s) * two_inv + ch(Ch::zeta(k)) * (e - s) * two_inv * point.inv();
            let next = if k + 1 < cfg.layers() { fri.layers_evaluations[k + 1] } else { p.fri_last_value };
            out.push((Kind::Fold, format!("query {}, layer {}: folding", q, k), Atom::zero(&(next - folded))));
            point = point * point;
            size /= 2;
        }
    }
    out
}
/// Decisions that hold for all but a negligible set of challenges: an equation among challenges
/// alone is false.
pub fn generic_challenges(a: &Atom) -> Option<bool> {
    match a {
        Atom::Zero(v) => {
            let vs = crate::ff::vars_of(v);
            if !vs.is_empty() && vs.iter().all(|n| n.starts_with("ch")) {
                Some(false)
            } else {
                None
            }
        }
        _ => None,
    }
}
pub use explore::Outcome;
