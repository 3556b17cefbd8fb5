//! What the rows of a Cairo trace have to satisfy, written down from the Cairo whitepaper (sections 4, 9)
//! and the documented column layout; compared with the constraints of the real AIR.
use crate::must::{always, Sym};
use crate::{c, report, sym, vspec::Cfg, F, FE};
use lambdaworks_math::unsigned_integer::element::U256;
use lambdaworks_stark::cairo::air::{CairoAIR, CairoRAPChallenges, MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::starks::{constraints::boundary::BoundaryConstraint, frame::Frame, traits::AIR};
use std::collections::HashMap;

pub const RES: usize = 16;
pub const AP: usize = 17;
pub const FP: usize = 18;
pub const PC: usize = 19;
pub const ADDR: [usize; 4] = [19, 20, 21, 22];
pub const VALUE: [usize; 4] = [23, 24, 25, 26];
pub const INST: usize = 23;
pub const DST: usize = 24;
pub const OP0: usize = 25;
pub const OP1: usize = 26;
pub const OFF: [usize; 3] = [27, 28, 29];
pub const T0: usize = 30;
pub const T1: usize = 31;
pub const MUL: usize = 32;
pub const SELECTOR: usize = 33;
pub const RC: usize = 34;
pub const RC_VALUE: usize = 42;
/// the auxiliary columns follow the main ones
pub struct Aux {
    pub off: [usize; 3],
    pub addr: [usize; 4],
    pub value: [usize; 4],
    pub perm: [usize; 4],
    pub rc_perm: [usize; 3],
}
pub fn aux(builtin: bool) -> Aux {
    let b = if builtin { 43 } else { 34 };
    Aux {
        off: [b, b + 1, b + 2],
        addr: [b + 3, b + 4, b + 5, b + 6],
        value: [b + 7, b + 8, b + 9, b + 10],
        perm: [b + 11, b + 12, b + 13, b + 14],
        rc_perm: [b + 15, b + 16, b + 17],
    }
}
pub fn columns(builtin: bool) -> usize {
    if builtin { 61 } else { 52 }
}
pub fn zero() -> FE {
    FE::zero()
}
pub fn one() -> FE {
    FE::one()
}
pub fn challenges(s: Sym) -> CairoRAPChallenges {
    CairoRAPChallenges { alpha_memory: s("alpha"), z_memory: s("z"), z_range_check: s("zrc") }
}
pub fn segments(rc: bool, output: bool) -> MemorySegmentMap {
    let mut m = MemorySegmentMap::new();
    if rc {
        m.insert(MemorySegment::RangeCheck, 40..42);
    }
    if output {
        m.insert(MemorySegment::Output, 30..32);
    }
    m
}
/// Public inputs of symbols; the public memory has `program` cells and the output segment.
pub fn public(s: Sym, rc: bool, output: bool, program: u64, steps: usize) -> PublicInputs {
    let mut public_memory = HashMap::new();
    for a in (1..=program).chain(if output { 30..32 } else { 0..0 }) {
        public_memory.insert(c(a), s(&format!("m{}", a)));
    }
    PublicInputs {
        pc_init: s("pc_init"),
        ap_init: s("ap_init"),
        fp_init: s("fp_init"),
        pc_final: s("pc_final"),
        ap_final: s("ap_final"),
        range_check_min: Some(7),
        range_check_max: Some(60001),
        memory_segments: segments(rc, output),
        public_memory,
        num_steps: steps,
    }
}
pub fn air(s: Sym, rc: bool, output: bool, n: usize) -> CairoAIR {
    let cfg = Cfg { n, blowup: 4, offset: 3, iotas: vec![0] };
    CairoAIR::new(n, &public(s, rc, output, 3, n - 1), &cfg.options())
}
/// A flag combination: one bit per flag column.
pub type Flags = u16;
pub fn bit(f: Flags, i: usize) -> bool {
    f >> i & 1 == 1
}
/// Every flag combination that encodes an instruction.
pub fn instructions() -> Vec<Flags> {
    let group = |at: usize, n: usize| -> Vec<u16> { std::iter::once(0).chain((0..n).map(|i| 1 << (at + i))).collect() };
    let mut v = vec![];
    for regs in 0..4u16 {
        for src in group(2, 3) {
            for res in group(5, 2) {
                for pc in group(7, 3) {
                    for ap in group(10, 2) {
                        for op in group(12, 3) {
                            let jnz = pc == 1 << 9;
                            let call = op == 1 << 12;
                            if jnz && (res != 0 || op != 0 || ap == 1 << 10) || call && ap != 0 {
                                continue;
                            }
                            v.push(regs | src | res | pc | ap | op);
                        }
                    }
                }
            }
        }
    }
    v
}
/// Two consecutive rows of symbols; the flags and the selector of the first are given.
pub struct Rows {
    pub r: [Vec<FE>; 2],
}
pub fn rows(s: Sym, builtin: bool, flags: Option<Flags>, selector: Option<FE>) -> Rows {
    let mut r = [vec![], vec![]];
    for k in 0..2 {
        for i in 0..columns(builtin) {
            r[k].push(match (k, flags, selector) {
                (0, Some(f), _) if i < 16 => c(bit(f, i) as u64),
                (0, _, Some(v)) if i == SELECTOR => v,
                _ => s(&format!("r{}c{}", k, i)),
            });
        }
    }
    Rows { r }
}
impl Rows {
    pub fn frame(&self) -> Frame<F> {
        Frame::new(self.r.concat(), self.r[0].len())
    }
    fn cur(&self, i: usize) -> FE {
        self.r[0][i]
    }
    fn nxt(&self, i: usize) -> FE {
        self.r[1][i]
    }
    /// C19: what decoding demands.
    pub fn decoding(&self) -> Result<(), String> {
        for i in 0..15 {
            if self.cur(i) != zero() && self.cur(i) != one() {
                return Err(format!("flag cell {} is neither 0 nor 1", i));
            }
        }
        if self.cur(15) != zero() {
            return Err("the sixteenth flag cell is not 0".into());
        }
        self.word()
    }
    pub fn word(&self) -> Result<(), String> {
        let mut w = self.cur(OFF[0]) + self.cur(OFF[1]) * c(1 << 16) + self.cur(OFF[2]) * c(1 << 32);
        for i in 0..15 {
            w = w + self.cur(i) * c(1 << (48 + i));
        }
        ok(w == self.cur(INST), "the instruction cell is not the packed flags and offsets")
    }
    fn size(&self, f: Flags) -> FE {
        if bit(f, 2) { c(2) } else { one() }
    }
    /// C20: operand addresses and successor registers.
    pub fn machine(&self, f: Flags) -> Result<(), String> {
        let bias = c(1 << 15);
        let reg = |fp: bool| if fp { self.cur(FP) } else { self.cur(AP) };
        ok(self.cur(ADDR[1]) == reg(bit(f, 0)) + self.cur(OFF[0]) - bias, "the destination address")?;
        ok(self.cur(ADDR[2]) == reg(bit(f, 1)) + self.cur(OFF[1]) - bias, "the first operand's address")?;
        let base = if bit(f, 2) { self.cur(PC) } else if bit(f, 3) { self.cur(FP) } else if bit(f, 4) { self.cur(AP) } else { self.cur(OP0) };
        ok(self.cur(ADDR[3]) == base + self.cur(OFF[2]) - bias, "the second operand's address")?;
        let mut ap = self.cur(AP);
        if bit(f, 10) {
            ap = ap + self.cur(RES);
        }
        if bit(f, 11) {
            ap = ap + one();
        }
        if bit(f, 12) {
            ap = ap + c(2);
        }
        ok(self.nxt(AP) == ap, "the next ap")?;
        let fp = if bit(f, 12) { self.cur(AP) + c(2) } else if bit(f, 13) { self.cur(DST) } else { self.cur(FP) };
        ok(self.nxt(FP) == fp, "the next fp")?;
        let after = self.cur(PC) + self.size(f);
        let pc = if bit(f, 7) {
            self.cur(RES)
        } else if bit(f, 8) {
            self.cur(PC) + self.cur(RES)
        } else if bit(f, 9) && self.cur(DST) != zero() {
            self.cur(PC) + self.cur(OP1)
        } else {
            after
        };
        ok(self.nxt(PC) == pc, "the next pc")
    }
    /// C21: result, products and opcodes.
    pub fn arithmetic(&self, f: Flags) -> Result<(), String> {
        let jnz = bit(f, 9);
        ok(self.cur(MUL) == self.cur(OP0) * self.cur(OP1), "the product cell")?;
        let res = if bit(f, 5) { self.cur(OP0) + self.cur(OP1) } else if bit(f, 6) { self.cur(MUL) } else { self.cur(OP1) };
        ok(jnz || self.cur(RES) == res, "the result")?;
        ok(self.cur(T0) == if jnz { self.cur(DST) } else { zero() }, "the first helper cell of conditional jumps")?;
        ok(self.cur(T1) == self.cur(T0) * self.cur(RES), "the second helper cell of conditional jumps")?;
        if bit(f, 12) {
            ok(self.cur(DST) == self.cur(FP), "a call stores fp")?;
            ok(self.cur(OP0) == self.cur(PC) + self.size(f), "a call stores the return address")?;
        }
        if bit(f, 14) {
            ok(self.cur(DST) == self.cur(RES), "an assertion equates destination and result")?;
        }
        Ok(())
    }
    /// In a taken conditional jump the result cell holds the inverse of the destination.
    pub fn hint(&self, f: Flags) -> bool {
        !bit(f, 9) || self.cur(DST) == zero() || self.cur(RES) * self.cur(DST) == one()
    }
    /// C22: memory continuity, single values, permutation steps; `k` numbers the four steps of a row.
    pub fn memory(&self, builtin: bool, k: usize, ch: &CairoRAPChallenges) -> [Result<(), String>; 3] {
        let a = aux(builtin);
        let at = |v: &[usize; 4], j: usize| if j < 4 { self.cur(v[j]) } else { self.nxt(v[0]) };
        let (a0, a1) = (at(&a.addr, k), at(&a.addr, k + 1));
        let (v0, v1) = (at(&a.value, k), at(&a.value, k + 1));
        let (p0, p1) = (at(&a.perm, k), at(&a.perm, k + 1));
        let (u, w) = (at(&ADDR, k + 1), at(&VALUE, k + 1));
        let sorted = ch.z_memory - (a1 + ch.alpha_memory * v1);
        let unsorted = ch.z_memory - (u + ch.alpha_memory * w);
        let continuous = ok(a1 == a0 || a1 == a0 + one(), &format!("sorted address {} of a row", k + 1));
        let single = ok(a1 != a0 || v0 == v1, &format!("value {} of equal addresses", k + 1));
        [continuous, single, ok(p1 * sorted == p0 * unsorted, &format!("memory permutation cell {}", k + 1))]
    }
    /// C23: sorted offsets and their permutation.
    pub fn offsets(&self, builtin: bool, k: usize, ch: &CairoRAPChallenges) -> [Result<(), String>; 2] {
        let a = aux(builtin);
        let at = |v: &[usize; 3], j: usize| if j < 3 { self.cur(v[j]) } else { self.nxt(v[0]) };
        let (o0, o1) = (at(&a.off, k), at(&a.off, k + 1));
        let (p0, p1) = (at(&a.rc_perm, k), at(&a.rc_perm, k + 1));
        let u = at(&OFF, k + 1);
        let z = ch.z_range_check;
        [
            ok(o1 == o0 || o1 == o0 + one(), &format!("sorted offset {} of a row", k + 1)),
            ok(p1 * (z - o1) == p0 * (z - u), &format!("offset permutation cell {}", k + 1)),
        ]
    }
    pub fn chunks(&self) -> Result<(), String> {
        let mut v = zero();
        for i in (0..8).rev() {
            v = v * c(1 << 16) + self.cur(RC + i);
        }
        ok(v == self.cur(RC_VALUE), "the range-check cell is not its packed chunks")
    }
}
pub fn ok(b: bool, what: &str) -> Result<(), String> {
    if b { Ok(()) } else { Err(what.to_string()) }
}
/// The cells a constraint reads: whether in the next row, and the column.
pub fn cells(v: &U256) -> Vec<(bool, usize)> {
    let mut cells = vec![];
    for x in crate::ff::vars_of(v) {
        if let Some((r, k)) = x.strip_prefix('r').and_then(|t| t.split_once('c')) {
            cells.push((r == "1", k.parse::<usize>().unwrap()));
        }
    }
    cells
}
/// The property a constraint belongs to, told from the cells it reads.
pub fn belongs(v: &U256, property: &str, builtin: bool) -> bool {
    let cells = cells(v);
    let a = aux(builtin);
    let memory = |k: usize| a.addr.contains(&k) || a.value.contains(&k) || a.perm.contains(&k);
    let offsets = |k: usize| a.off.contains(&k) || a.rc_perm.contains(&k) || builtin && (RC..=RC_VALUE).contains(&k);
    let any = |f: &dyn Fn(usize) -> bool| cells.iter().any(|x| f(x.1));
    let machine = cells.iter().any(|x| x.0) || any(&|k| ADDR[1..].contains(&k));
    let decoding = cells.iter().all(|x| x.1 < 16 || x.1 == SELECTOR || x.1 == INST || OFF.contains(&x.1));
    let class = if any(&memory) {
        "C22"
    } else if any(&offsets) {
        "C23"
    } else if decoding {
        "C19"
    } else if machine {
        "C20"
    } else {
        "C21"
    };
    class == property
}
fn eval(s: Sym, rc: bool, output: bool, r: &Rows) -> Vec<FE> {
    air(s, rc, output, 8).compute_transition(&r.frame(), &challenges(s))
}
/// The constraints as terms, which tell what cells they read.
fn shape(builtin: bool, flags: Option<Flags>, selector: Option<FE>) -> Vec<U256> {
    let s: Sym = &|x| sym::symbol(x);
    eval(s, builtin, false, &rows(s, builtin, flags, selector)).iter().map(|v| *v.value()).collect()
}
/// The operand, register and opcode constraints are those of active rows; the others hold everywhere.
fn selector(flags: Option<Flags>) -> Option<FE> {
    flags.map(|_| one())
}
/// "the constraints vanish => the demand holds" for one demand; constraints of other classes play no
/// part in it (they read other cells).
pub fn forced(name: &str, classes: &[&str], builtin: bool, flags: Option<Flags>, demand: &dyn Fn(&Rows, Sym) -> Result<(), String>) {
    let shape = shape(builtin, flags, selector(flags));
    always(&format!("{}: forced", name), &|s| {
        let r = rows(s, builtin, flags, selector(flags));
        // the demand first: most constraints then need no case of their own
        let want = demand(&r, s);
        if want.is_ok() {
            return Ok(());
        }
        for (v, k) in eval(s, builtin, false, &r).into_iter().zip(&shape) {
            if classes.iter().any(|p| belongs(k, p, builtin)) && v != zero() {
                return Ok(());
            }
        }
        want.map_err(|e| format!("all constraints vanish, and yet not: {}", e))
    });
}
/// "the demands hold => the constraints of the property vanish".
pub fn admitted(name: &str, builtin: bool, flags: Option<Flags>, only: &dyn Fn(&U256) -> bool, demands: &dyn Fn(&Rows, Sym) -> bool) {
    let shape = shape(builtin, flags, Some(one()));
    let reached = std::cell::Cell::new(false);
    always(&format!("{}: admitted", name), &|s| {
        let r = rows(s, builtin, flags, Some(one()));
        if !demands(&r, s) {
            return Ok(());
        }
        reached.set(true);
        let v = eval(s, builtin, false, &r);
        for k in 0..v.len() {
            if only(&shape[k]) && v[k] != zero() {
                return Err(format!("every demand holds, and yet constraint {} does not vanish", k));
            }
        }
        Ok(())
    });
    report::witness(&format!("{}: the demands can hold", name), reached.get());
}
/// Constraints cover every row they can: only what reads the next row may skip the last one.
pub fn coverage(property: &str, builtin: bool) {
    let name = format!("rows covered by the constraints{}", if builtin { " (with the range-check builtin)" } else { "" });
    report::guard(&name, || {
        let s: Sym = &|x| sym::symbol(x);
        let air = air(s, builtin, false, 8);
        let r = rows(s, builtin, None, None);
        let v = air.compute_transition(&r.frame(), &challenges(s));
        let cx = air.context();
        let mut bad = vec![];
        let m = cx.num_transition_constraints;
        if v.len() != m || cx.transition_degrees.len() != m || cx.transition_exemptions.len() != m {
            bad.push(format!("{} constraints are computed, {} declared ({} degrees, {} exemptions)", v.len(), m, cx.transition_degrees.len(), cx.transition_exemptions.len()));
        }
        if cx.transition_offsets != [0, 1] {
            bad.push(format!("frame offsets {:?}", cx.transition_offsets));
        }
        if cx.trace_columns != columns(builtin) {
            bad.push(format!("{} columns", cx.trace_columns));
        }
        for k in 0..v.len().min(m) {
            if bad.len() > 3 || !belongs(v[k].value(), property, builtin) {
                continue;
            }
            let next = sym::is_sym(v[k].value()) && crate::ff::vars_of(v[k].value()).iter().any(|x| x.starts_with("r1"));
            if cx.transition_exemptions[k] > next as usize {
                bad.push(format!("constraint {} is not imposed on {} row(s)", k, cx.transition_exemptions[k]));
            }
            let degree = degree(v[k].value());
            if cx.transition_degrees[k] < degree {
                bad.push(format!("constraint {} has degree {}, declared {}", k, degree, cx.transition_degrees[k]));
            }
            let n = air.trace_length();
            if air.composition_poly_degree_bound() < n * cx.transition_degrees[k].saturating_sub(1) {
                bad.push(format!("constraint {} exceeds the degree bound of the composition polynomial", k));
            }
        }
        report::with(|r| r.queries += 1);
        if bad.is_empty() {
            report::discharged(&name, "every constraint of this property is imposed on each row, with a degree not above the declared one");
        } else {
            report::violated(&name, serde_json::json!({"what": bad}));
        }
    });
}
/// Total degree in the cells of the trace.
fn degree(v: &U256) -> usize {
    let mut d = 0;
    for (m, _) in sym::expand(v) {
        let e: u32 = m.iter().filter(|(x, _)| sym::var_name(*x).starts_with('r')).map(|x| x.1).sum();
        d = d.max(e as usize);
    }
    d
}
/// The boundary constraints a property owns; for C24 also that there are no others.
pub fn boundary(property: &str, rc: bool, output: bool, n: usize, steps: usize, program: u64, bounds: (u16, u16)) {
    let name = format!("boundary conditions of {} rows, {} steps, {} program cells{}{}, offsets {}..={}", n, steps, program, if rc { ", range-check builtin" } else { "" }, if output { ", output" } else { "" }, bounds.0, bounds.1);
    always(&name, &|s| {
        let mut p = public(s, rc, output, program, steps);
        p.range_check_min = Some(bounds.0);
        p.range_check_max = Some(bounds.1);
        let cfg = Cfg { n, blowup: 4, offset: 3, iotas: vec![0] };
        let air = CairoAIR::new(n, &p, &cfg.options());
        let ch = challenges(s);
        let got: Vec<BoundaryConstraint<F>> = air.boundary_constraints(&ch).constraints;
        let want = wanted(&p, &ch, rc, n, bounds);
        for (prop, col, step, value, what) in &want {
            if (property == "C24" || *prop == property) && !got.iter().any(|b| b.col == *col && b.step == *step && b.value == *value) {
                return Err(format!("no boundary condition fixes {}", what));
            }
        }
        for b in &got {
            if property == "C24" && !want.iter().any(|w| b.col == w.1 && b.step == w.2 && b.value == w.3) {
                return Err(format!("a boundary condition on column {} at step {} which the public inputs do not call for", b.col, b.step));
            }
        }
        Ok(())
    });
}
/// `boundary` for runs of many shapes.
pub fn boundaries(property: &str) {
    for rc in [false, true] {
        for output in [false, true] {
            for (n, steps) in [(8, 1), (8, 5), (8, 7), (16, 9), (64, 63)] {
                for program in [0, 1, 3] {
                    for bounds in [(0, 65535), (32767, 32769), (7, 7)] {
                        if !crate::thorough() && (n + steps + program as usize + bounds.0 as usize) % 3 != 0 {
                            continue;
                        }
                        sym::reset();
                        boundary(property, rc, output, n, steps, program, bounds);
                    }
                }
            }
        }
    }
}
pub fn permutation_total(p: &PublicInputs, ch: &CairoRAPChallenges) -> FE {
    let mut den = one();
    for (a, v) in &p.public_memory {
        den = den * (ch.z_memory - (*a + ch.alpha_memory * *v));
    }
    ch.z_memory.pow(p.public_memory.len()) * den.inv()
}
pub fn functions() {
    for f in ["cairo::air::CairoAIR::new", "cairo::air::CairoAIR::compute_transition (and the functions it calls)", "starks::frame::Frame"] {
        report::function(f);
    }
}
/// A whole trace of a few rows for the constraints a property owns.
pub struct Whole<'a> {
    pub builtin: bool,
    pub n: usize,
    pub steps: usize,
    pub program: u64,
    pub property: &'a str,
    pub bounds: (u16, u16),
}
impl Whole<'_> {
    pub fn public(&self, s: Sym) -> PublicInputs {
        let mut p = public(s, self.builtin, false, self.program, self.steps);
        p.range_check_min = Some(self.bounds.0);
        p.range_check_max = Some(self.bounds.1);
        p
    }
    /// Whether the boundary conditions on auxiliary columns and the property's constraints hold.
    pub fn holds(&self, s: Sym, rows: &[Vec<FE>]) -> bool {
        let cfg = Cfg { n: self.n, blowup: 4, offset: 3, iotas: vec![0] };
        let air = CairoAIR::new(self.n, &self.public(s), &cfg.options());
        let ch = challenges(s);
        let main = if self.builtin { 43 } else { 34 };
        for b in air.boundary_constraints(&ch).constraints {
            if b.col >= main && b.step < self.n && rows[b.step][b.col] != b.value {
                return false;
            }
        }
        let sample = self::rows(&|x| sym::symbol(x), self.builtin, None, None);
        let shape = air.compute_transition(&sample.frame(), &challenges(&|x| sym::symbol(x)));
        let exempt = &air.context().transition_exemptions;
        for i in 0..self.n {
            let f = Frame::new([rows[i].clone(), rows[(i + 1) % self.n].clone()].concat(), rows[0].len());
            let v = air.compute_transition(&f, &ch);
            for k in 0..v.len() {
                let imposed = i + exempt[k] < self.n;
                if imposed && belongs(shape[k].value(), self.property, self.builtin) && v[k] != zero() {
                    return false;
                }
            }
        }
        true
    }
    /// Rows of symbols; the cells of the product columns but the last one are arbitrary constants.
    pub fn rows(&self, s: Sym, products: &[usize]) -> Vec<Vec<FE>> {
        (0..self.n)
            .map(|i| {
                (0..columns(self.builtin))
                    .map(|k| match products.iter().position(|p| *p == k) {
                        Some(j) if (i, j + 1) != (self.n - 1, products.len()) => crate::prf_fe("product", (i * 8 + j) as u64),
                        _ => s(&format!("t{}c{}", i, k)),
                    })
                    .collect()
            })
            .collect()
    }
}
/// (column, step, value, what) of every boundary condition a run of the given shape has.
pub fn wanted(p: &PublicInputs, ch: &CairoRAPChallenges, builtin: bool, n: usize, bounds: (u16, u16)) -> Vec<(&'static str, usize, usize, FE, String)> {
    let a = aux(builtin);
    let last = p.num_steps - 1;
    let mut v = vec![];
    let mut put = |prop, col, step, value, what: &str| v.push((prop, col, step, value, what.to_string()));
    put("C24", PC, 0, p.pc_init, "the initial pc");
    put("C24", AP, 0, p.ap_init, "the initial ap");
    put("C24", FP, 0, p.fp_init, "the initial fp");
    put("C24", PC, last, p.pc_final, "the final pc");
    put("C24", AP, last, p.ap_final, "the final ap");
    put("C22", a.perm[3], n - 1, permutation_total(p, ch), "the total of the memory permutation");
    put("C23", a.off[0], 0, c(bounds.0 as u64), "the smallest offset");
    put("C23", a.off[2], n - 1, c(bounds.1 as u64), "the largest offset");
    put("C23", a.rc_perm[2], n - 1, one(), "the total of the offset permutation");
    v
}
