//! A reference Cairo machine (whitepaper, section 4.5) that makes up runs: it is given the instruction
//! flags of each step and chooses displacements and memory so that the run is a valid one.  Registers and
//! addresses are numbers, memory values are terms.
use crate::cairo::{bit, Flags};
use crate::must::Sym;
use crate::{c, prf, sym, FE};
use lambdaworks_stark::cairo::{
    cairo_mem::CairoMemory,
    register_states::{RegisterStates, RegistersState},
};
use std::collections::BTreeMap;

/// What a step is to do besides its flags.
#[derive(Clone, Copy, Debug)]
pub struct Step {
    pub flags: Flags,
    /// a conditional jump is taken, its destination being a symbol (or else a number)
    pub taken: bool,
    pub symbolic: bool,
}
pub fn step(flags: Flags) -> Step {
    Step { flags, taken: true, symbolic: true }
}
#[derive(Clone)]
pub struct Machine {
    pub memory: BTreeMap<u64, FE>,
    pub states: Vec<(u64, u64, u64)>,
    /// (pc, ap, fp)
    pub at: (u64, u64, u64),
    /// values that the run needs to be different from zero
    pub nonzero: Vec<FE>,
    /// the largest displacement
    pub reach: u64,
    /// how far jumps go, pointers point and frames move
    pub jump: u64,
    pub stack: (u64, u64),
    pub label: String,
    /// displacements chosen for each step
    pub offsets: Vec<[i64; 3]>,
    pub program: u64,
}
fn number(v: &FE) -> Option<u64> {
    if sym::is_sym(v.value()) {
        return None;
    }
    let l = v.representative().limbs;
    (l[..3] == [0, 0, 0] && l[3] < 1 << 40).then_some(l[3])
}
fn is(v: &FE, w: &FE) -> bool {
    v.value() == w.value()
}
impl Machine {
    pub fn new(label: &str, pc: u64, stack: (u64, u64), start: u64, reach: u64, jump: u64) -> Machine {
        Machine {
            memory: BTreeMap::new(),
            states: vec![],
            at: (pc, start, start),
            nonzero: vec![],
            reach,
            jump,
            stack,
            label: label.to_string(),
            offsets: vec![],
            program: pc,
        }
    }
    /// Executes one instruction; the displacements are searched for.
    pub fn execute(&mut self, s: Sym, x: Step) -> Result<(), String> {
        let mut why = String::new();
        for t in 0..400u64 {
            let b = prf(&self.label, self.states.len() as u64 * 1000 + t);
            match self.attempt(s, x, &b) {
                Ok(m) => {
                    *self = m;
                    return Ok(());
                }
                Err(e) => why = e,
            }
        }
        Err(format!("no run for {:?} after {:?}: {}", x, self.states, why))
    }
    fn attempt(&self, s: Sym, x: Step, b: &[u8; 32]) -> Result<Machine, String> {
        let f = x.flags;
        let mut m = self.clone();
        let (pc, ap, fp) = self.at;
        let size = if bit(f, 2) { 2 } else { 1 };
        let (call, ret, equal) = (bit(f, 12), bit(f, 13), bit(f, 14));
        let jnz = bit(f, 9);
        let pick = |i: usize, n: u64| (u16::from_be_bytes([b[i], b[i + 1]]) as u64) % n;
        let mut d = [0i64; 3];
        for i in 0..3 {
            d[i] = pick(2 * i, 2 * self.reach + 1) as i64 - self.reach as i64;
        }
        if bit(f, 2) {
            d[2] = 1;
        }
        let mut word = (f as u64) << 48;
        for i in 0..3 {
            word |= ((d[i] + 0x8000) as u64) << (16 * i);
        }
        m.fix(pc, c(word))?;
        let place = |base: u64, d: i64| -> Result<u64, String> {
            let a = base as i64 + d;
            if a < 1 { Err("an address below 1".into()) } else { Ok(a as u64) }
        };
        let reg = |is_fp: bool| if is_fp { fp } else { ap };
        let (dst_a, op0_a) = (place(reg(bit(f, 0)), d[0])?, place(reg(bit(f, 1)), d[1])?);
        // where to go
        let target = if pick(8, 3) == 0 && pc > self.jump { pc - 1 - pick(10, self.jump - 1) } else { pc + size + 1 + pick(10, self.jump) };
        let by = |to: u64, from: u64| c(to) - c(from);
        let inside = |a: u64| a >= self.stack.0 && a < self.stack.1;
        let res_number = if bit(f, 7) {
            Some(c(target))
        } else if bit(f, 8) {
            Some(by(target, pc))
        } else if bit(f, 10) {
            Some(by(self.stack.0 + pick(12, self.stack.1 - self.stack.0), ap))
        } else {
            None
        };
        if call {
            m.fix(op0_a, c(pc + size))?;
            m.fix(dst_a, c(fp))?;
        }
        let pointer = !bit(f, 2) && !bit(f, 3) && !bit(f, 4);
        let op0 = m.cell(op0_a, || {
            if pointer {
                c(self.stack.0 + pick(14, self.stack.1 - self.stack.0))
            } else if res_number.is_some() && bit(f, 6) {
                c(3 + pick(16, 100))
            } else {
                s(&format!("m{}", op0_a))
            }
        });
        let base = if pointer {
            number(&op0).ok_or("a pointer that is not a number")?
        } else if bit(f, 2) {
            pc
        } else {
            reg(bit(f, 3))
        };
        let op1_a = place(base, d[2])?;
        if bit(f, 6) && res_number.is_some() && (sym::is_sym(op0.value()) || op0 == FE::zero()) {
            return Err("a factor that is not a number".into());
        }
        let op1 = m.cell(op1_a, || {
            if jnz && x.taken {
                return by(target, pc);
            }
            match res_number {
                Some(r) if bit(f, 5) => r - op0,
                Some(r) if bit(f, 6) => r * op0.inv(),
                Some(r) => r,
                None => s(&format!("m{}", op1_a)),
            }
        });
        let res = if bit(f, 5) { op0 + op1 } else if bit(f, 6) { op0 * op1 } else { op1 };
        let dst = m.cell(dst_a, || {
            if equal {
                res
            } else if jnz && !x.taken {
                FE::zero()
            } else if ret || jnz && !x.symbolic {
                c(self.stack.0 + pick(18, self.stack.1 - self.stack.0))
            } else {
                s(&format!("m{}", dst_a))
            }
        });
        if equal && !is(&dst, &res) {
            return Err("unequal".into());
        }
        // the next state
        let go = |v: FE| number(&v).filter(|a| *a >= 1).ok_or("a register that is not a number".to_string());
        let next_pc = if bit(f, 7) {
            go(res)?
        } else if bit(f, 8) {
            go(c(pc) + res)?
        } else if jnz && x.taken {
            if sym::is_sym(dst.value()) != x.symbolic {
                return Err("another kind of condition".into());
            }
            if x.symbolic {
                m.nonzero.push(dst);
            } else if dst == FE::zero() {
                return Err("not taken".into());
            }
            go(c(pc) + op1)?
        } else {
            if jnz && !is(&dst, &FE::zero()) {
                return Err("taken".into());
            }
            pc + size
        };
        let mut next_ap = ap;
        if bit(f, 10) {
            next_ap = go(c(ap) + res)?;
        }
        next_ap += if bit(f, 11) { 1 } else { 0 } + if call { 2 } else { 0 };
        let next_fp = if call { ap + 2 } else if ret { go(dst)? } else { fp };
        if !(inside(next_ap) && inside(next_fp)) {
            return Err("a frame elsewhere".into());
        }
        if next_pc >= self.stack.0 {
            return Err("a program elsewhere".into());
        }
        for a in [pc, next_pc] {
            m.program = m.program.max(a);
        }
        if bit(f, 2) {
            m.program = m.program.max(pc + 1);
        }
        m.states.push(self.at);
        m.offsets.push(d);
        m.at = (next_pc, next_ap, next_fp);
        Ok(m)
    }
    fn fix(&mut self, a: u64, v: FE) -> Result<(), String> {
        match self.memory.get(&a) {
            Some(w) if !is(w, &v) => Err(format!("cell {} is taken", a)),
            _ => {
                self.memory.insert(a, v);
                Ok(())
            }
        }
    }
    fn cell(&mut self, a: u64, v: impl FnOnce() -> FE) -> FE {
        *self.memory.entry(a).or_insert_with(v)
    }
    pub fn states(&self) -> RegisterStates {
        RegisterStates { rows: self.states.iter().map(|(pc, ap, fp)| RegistersState { pc: *pc, ap: *ap, fp: *fp }).collect() }
    }
    pub fn memory(&self) -> CairoMemory {
        CairoMemory::new(self.memory.iter().map(|(a, v)| (*a, *v)).collect())
    }
}
