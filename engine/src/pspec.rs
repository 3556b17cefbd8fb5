//! What the prover has to send for a trace of the harness AIR, computed independently
//! (quadratic-time transforms over terms).
use crate::hair::*;
use crate::vspec::{Cfg, Ch, SProof};
use crate::{c, hooks, prf_fe, sym, F, FE, U256};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{prover::prove, trace::TraceTable};
use std::rc::Rc;

/// Coefficients of the polynomial of degree < n with the given values on offset * <g>.
pub fn interpolate(values: &[FE], g: &FE, offset: &FE) -> Vec<FE> {
    let n = values.len();
    let ninv = c(n as u64).inv();
    let gi = g.inv();
    let oi = offset.inv();
    (0..n)
        .map(|j| {
            let mut acc = FE::zero();
            for (i, v) in values.iter().enumerate() {
                acc = acc + *v * gi.pow(i * j);
            }
            acc * ninv * oi.pow(j)
        })
        .collect()
}
pub fn evaluate(coefs: &[FE], x: &FE) -> FE {
    let mut acc = FE::zero();
    for a in coefs.iter().rev() {
        acc = acc * *x + *a;
    }
    acc
}
/// Installs the challenges: value(n) is the n-th one (a term or a constant).
pub fn install(cfg: &Cfg, value: Rc<dyn Fn(usize) -> FE>) {
    let iotas = cfg.iotas.clone();
    let first = cfg.first_iota();
    hooks::set_challenge(Some(Rc::new(move |n, _| {
        if n >= first {
            let mut b = [0u8; 32];
            b[..8].copy_from_slice(&(iotas.get(n - first).cloned().unwrap_or(0) as u64).to_be_bytes());
            return b;
        }
        let v = value(n);
        if sym::is_sym(v.value()) {
            sym::tagged_bytes(&v, n as u64)
        } else {
            v.to_bytes_be().try_into().unwrap()
        }
    })));
}
/// Main columns whose first `cells` rows are symbols, the others constants.
pub fn main_columns(s: &dyn Fn(&str) -> FE, n: usize, cells: usize) -> Vec<Vec<FE>> {
    (0..cols() - aux())
        // of many columns only some are symbolic
        .map(|k| (0..n).map(|i| if i < cells && (cols() < 10 || [0, 17, 35].contains(&k)) { s(&format!("m{}_{}", k, i)) } else { c(3 * i as u64 + 1 + 5 * k as u64) }).collect())
        .collect()
}
pub fn random_challenge(n: usize, instance: u64) -> FE {
    let mut v = *prf_fe(&format!("challenge {}", n), instance).value();
    // challenges have 251 bits
    v.limbs[0] &= 0x03ff_ffff_ffff_ffff;
    FE::from_raw_base(v)
}
pub struct Expected {
    pub cfg: Cfg,
    pub n: usize,
    /// coefficients of the trace polynomials
    pub polys: Vec<Vec<FE>>,
    /// composition polynomial at the points of the evaluation domain
    pub comp_evals: Vec<FE>,
    pub h1: Vec<FE>,
    pub h2: Vec<FE>,
    pub z: FE,
    pub ch: Rc<dyn Fn(usize) -> FE>,
}
pub fn expected(cfg: &Cfg, main: &[Vec<FE>], pi: &HPub, ch: Rc<dyn Fn(usize) -> FE>) -> Expected {
    let n = cfg.n;
    let g = cfg.root(n);
    let one = FE::one();
    let rap: Vec<FE> = Ch::rap().map(|i| ch(i)).collect();
    let mut columns = main.to_vec();
    columns.extend((shape().auxiliary)(main, &rap));
    let polys: Vec<Vec<FE>> = columns.iter().map(|col| interpolate(col, &g, &one)).collect();
    let z = ch(Ch::z());
    let lde = cfg.lde();
    let mut comp_evals = vec![];
    for i in 0..lde {
        let p = cfg.lde_point(i);
        comp_evals.push(composition(cfg, &polys, &p, pi, &ch));
    }
    let coefs = interpolate(&comp_evals, &cfg.root(lde), &c(cfg.offset));
    let h1 = coefs.iter().step_by(2).cloned().collect();
    let h2 = coefs.iter().skip(1).step_by(2).cloned().collect();
    Expected { cfg: cfg.clone(), n, polys, comp_evals, h1, h2, z, ch }
}
/// The random combination of all quotients at a point.
pub fn composition(cfg: &Cfg, polys: &[Vec<FE>], p: &FE, pi: &HPub, ch: &Rc<dyn Fn(usize) -> FE>) -> FE {
    let g = cfg.root(cfg.n);
    let t = |c: usize, r: usize| evaluate(&polys[c], &(*p * g.pow(r)));
    let frame: Vec<Vec<FE>> = shape().offsets.iter().map(|r| (0..cols()).map(|c| t(c, *r)).collect()).collect();
    composition_of_frame(cfg, &frame, p, pi, ch)
}
pub fn composition_of_frame(cfg: &Cfg, f: &[Vec<FE>], p: &FE, pi: &HPub, ch: &Rc<dyn Fn(usize) -> FE>) -> FE {
    let n = cfg.n;
    let one = FE::one();
    let g = cfg.root(n);
    let rap: Vec<FE> = Ch::rap().map(|i| ch(i)).collect();
    let bound = shape().bound * n;
    let mut h = FE::zero();
    let boundary = (shape().boundary)(n, pi, &rap);
    for (i, (col, step, value)) in boundary.iter().enumerate() {
        let adj = ch(Ch::b_alpha(i)) * p.pow(bound - n) + ch(Ch::b_beta(i));
        h = h + (f[0][*col] - *value) * (*p - g.pow(*step)).inv() * adj;
    }
    let cs = (shape().transition)(f, &rap);
    let zerofier = (p.pow(n) - one).inv();
    for i in 0..nt() {
        let adj = ch(Ch::t_alpha(i)) * p.pow(bound - n * (shape().degrees[i] - 1)) + ch(Ch::t_beta(i));
        let mut e = one;
        for k in 1..=exempt()[i] {
            e = e * (*p - g.pow(n - k));
        }
        h = h + cs[i] * zerofier * e * adj;
    }
    h
}
impl Expected {
    pub fn trace_at(&self, col: usize, p: &FE) -> FE {
        evaluate(&self.polys[col], p)
    }
    pub fn ood(&self, col: usize, row: usize) -> FE {
        let g = self.cfg.root(self.n);
        evaluate(&self.polys[col], &(self.z * g.pow(shape().offsets[row])))
    }
    /// the DEEP polynomial at a point
    pub fn deep(&self, p: &FE) -> FE {
        let g = self.cfg.root(self.n);
        let z2 = self.z * self.z;
        let mut acc = FE::zero();
        for col in 0..cols() {
            let v = self.trace_at(col, p);
            for r in 0..rows() {
                acc = acc + (self.ch)(Ch::trace(col, r)) * (v - self.ood(col, r)) * (*p - self.z * g.pow(shape().offsets[r])).inv();
            }
        }
        let d = (*p - z2).inv();
        acc + (self.ch)(Ch::g_even()) * (evaluate(&self.h1, p) - evaluate(&self.h1, &z2)) * d
            + (self.ch)(Ch::g_odd()) * (evaluate(&self.h2, p) - evaluate(&self.h2, &z2)) * d
    }
    /// evaluations of every FRI layer, the last one being the values after the last fold
    pub fn fri(&self) -> Vec<Vec<FE>> {
        let lde = self.cfg.lde();
        let first: Vec<FE> = (0..lde).map(|i| self.deep(&self.cfg.lde_point(i))).collect();
        let zetas: Vec<FE> = (0..self.cfg.layers()).map(|k| (self.ch)(Ch::zeta(k))).collect();
        let points: Vec<FE> = (0..lde).map(|i| self.cfg.lde_point(i)).collect();
        folds(first, points, &zetas)
    }
}
/// Successive folds of evaluations over the given points.
pub fn folds(first: Vec<FE>, points: Vec<FE>, zetas: &[FE]) -> Vec<Vec<FE>> {
    let half = c(2).inv();
    let mut points = points;
    let mut out = vec![first];
    for zeta in zetas {
        let e = out.last().unwrap().clone();
        let m = e.len() / 2;
        let next = (0..m)
            .map(|i| (e[i] + e[i + m]) * half + *zeta * (e[i] - e[i + m]) * half * points[i].inv())
            .collect();
        points = (0..m).map(|i| points[i] * points[i]).collect();
        out.push(next);
    }
    out
}
/// Runs the real prover on the given main columns with the challenges of `ch`.
pub fn run(cfg: &Cfg, main: &[Vec<FE>], pi: &HPub, ch: Rc<dyn Fn(usize) -> FE>) -> Result<SProof, String> {
    install(cfg, ch);
    let t = TraceTable::<F>::new_from_cols(main);
    let r = prove::<F, HAir>(&t, pi, &cfg.options());
    hooks::set_challenge(None);
    r.map_err(|e| format!("{:?}", e))
}
pub fn all_positions(n: usize, blowup: u8, offset: u64) -> Cfg {
    Cfg { n, blowup, offset, iotas: (0..n * blowup as usize).collect() }
}
pub type Challenges = Rc<dyn Fn(usize) -> FE>;
/// Generic decisions: an equation that involves a challenge symbol only is false.
pub fn raw(v: U256) -> FE {
    FE::from_raw_base(v)
}
