//! C27: the main trace after hole filling and padding.
use crate::inputs::*;
use lambdaworks_stark::cairo::{
    air::{
        MemorySegment, MemorySegmentMap, PublicInputs, FRAME_DST, FRAME_DST_ADDR, FRAME_INST, FRAME_OP0, FRAME_OP0_ADDR, FRAME_OP1,
        FRAME_OP1_ADDR, FRAME_PC, FRAME_SELECTOR, OFF_DST, OFF_OP0, OFF_OP1,
    },
    cairo_mem::CairoMemory,
    execution_trace::{build_cairo_execution_trace, build_main_trace},
    register_states::{RegisterStates, RegistersState},
};
use nd::mstd::collections::HashMap;
use nd::{any, assume, reach};

crate::harnesses! {
    c27_memory;
    c27_memory_after_offsets;
    c27_memory_jump;
    c27_output_1;
    c27_output_2;
    c27_output_4;
    c27_output_after_offsets;
    c27_builtin;
    c27_offsets_1;
    c27_offsets_2;
    c27_offsets_far;
    c27_memory_deep;
    c27_output_deep;
    c27_offsets_deep;
}

const CELLS: [(usize, usize); 4] =
    [(FRAME_PC, FRAME_INST), (FRAME_DST_ADDR, FRAME_DST), (FRAME_OP0_ADDR, FRAME_OP0), (FRAME_OP1_ADDR, FRAME_OP1)];
const OFFSETS: [usize; 3] = [OFF_DST, OFF_OP0, OFF_OP1];

fn number(e: &FE) -> u64 {
    e.representative().limbs[3]
}
/// The smallest value not below `at` and its position are left to the caller: `value` of `at`, or none.
struct Seen {
    cells: Vec<Option<FE>>,
    clash: bool,
}
impl Seen {
    fn put(&mut self, at: u64, value: FE) {
        let at = at as usize;
        while self.cells.len() <= at {
            self.cells.push(None);
        }
        match &self.cells[at] {
            Some(v) => self.clash |= *v != value,
            None => self.cells[at] = Some(value),
        }
    }
}
/// What the filled trace of a run must be.
fn filled(t: RegisterStates, memory: CairoMemory, program: usize, segments: MemorySegmentMap) -> (usize, usize) {
    let mut public = PublicInputs::from_regs_and_mem(&t, &memory, program, &segments);
    let bare = build_cairo_execution_trace(&t, &memory, &public);
    let main = build_main_trace(&t, &memory, &mut public);
    let (steps, rows) = (t.steps(), main.n_rows());
    assert!(bare.n_rows() == steps && main.n_cols == bare.n_cols && main.table.len() == rows * main.n_cols);
    assert!(rows.is_power_of_two());
    // the rows of the run are as they were, no other row is one
    let mut same = true;
    for r in 0..steps {
        for c in 0..main.n_cols {
            same &= main.get(r, c) == bare.get(r, c);
        }
    }
    assert!(same, "the rows of the run");
    let mut off = true;
    for r in steps..rows {
        off &= main.get(r, FRAME_SELECTOR) == FE::zero();
    }
    assert!(off, "the rows after the run");
    // offsets
    let (low, high) = (public.range_check_min.unwrap() as u64, public.range_check_max.unwrap() as u64);
    let mut bounds = (u64::MAX, 0);
    for r in 0..steps {
        for c in OFFSETS {
            let v = number(&main.get(r, c));
            if v < bounds.0 {
                bounds.0 = v;
            }
            if v > bounds.1 {
                bounds.1 = v;
            }
        }
    }
    assert!(bounds == (low, high), "the published bounds");
    let mut there = vec![false; (high - low + 1) as usize];
    for r in 0..rows {
        for c in OFFSETS {
            let v = number(&main.get(r, c));
            assert!(v >= low && v <= high, "an offset outside the bounds");
            there[(v - low) as usize] = true;
        }
    }
    assert!(there.iter().all(|x| *x), "a missing offset");
    // memory: the last places are for the public memory
    let mut seen = Seen { cells: vec![], clash: false };
    let mut zeros = true;
    let total = 4 * rows;
    for r in 0..rows {
        for (i, (a, v)) in CELLS.into_iter().enumerate() {
            let (a, v) = (main.get(r, a), main.get(r, v));
            if 4 * r + i >= total - public.public_memory.len() {
                zeros &= (a == FE::zero()) & (v == FE::zero());
            }
            seen.put(number(&a), v);
        }
    }
    assert!(zeros, "the places of the public memory");
    assert!(total - public.public_memory.len() >= 4 * steps, "the places of the run");
    for (a, v) in public.public_memory.iter() {
        seen.put(number(a), *v);
    }
    assert!(!seen.clash, "an address with two values");
    if let Some(zero) = &seen.cells[0] {
        assert!(*zero == FE::zero());
    }
    assert!(seen.cells[1..].iter().all(|x| x.is_some()), "a gap in memory");
    (rows, seen.cells.len() - 1)
}
/// A run of instructions that do nothing, whose operands are `[ap]`, `[fp]` and `[fp]` or `[ap]`.
fn nops(n: u64, code: u64, states: &[(u64, u64)], far: bool) -> (RegisterStates, HashMap<u64, FE>) {
    let mut data = HashMap::new();
    for i in 1..=n {
        // the first instruction may have another displacement, to leave holes in the offsets
        let d = if far && i == 1 { 0x8000_8000_7ffc } else { 0x8000_8000_8000 };
        data.insert(i, FE::from(code << 48 | d));
    }
    let mut rows = vec![];
    for (i, (ap, fp)) in states.iter().enumerate() {
        let pc = 1 + (i as u64) % n;
        let dst = if far && pc == 1 { *ap - 4 } else { *ap };
        for a in [dst, *fp, *ap] {
            if data.get(&a).is_none() {
                data.insert(a, fe());
            }
        }
        rows.push(RegistersState { pc, ap: *ap, fp: *fp });
    }
    (RegisterStates { rows }, data)
}
fn at(low: u64, high: u64) -> u64 {
    let a: u8 = any();
    assume(a as u64 >= low && a as u64 <= high);
    a as u64
}
/// op0 = [fp], op1 = [ap]
const NOP: u64 = 2 | 16;

fn memory(n: u64, high: u64, far: bool) {
    let low = if far { n + 5 } else { n + 1 };
    let (a, b, c) = (at(low, high), at(low, high), at(low, high));
    let (t, data) = nops(n, NOP, &[(a, b), (c, c)], far);
    let (rows, top) = filled(t, CairoMemory::new(data), n as usize, MemorySegmentMap::new());
    reach!(rows >= 8 && top as u64 == high, "holes");
    reach!(a != b && b != c && a != c && top as u64 == n + 3 + if far { 4 } else { 0 }, "no gap");
}
fn c27_memory() {
    memory(2, 10, false)
}
fn c27_memory_after_offsets() {
    memory(2, 12, true)
}
fn c27_memory_jump() {
    memory(1, 8, false)
}
fn c27_memory_deep() {
    memory(3, 16, false)
}
/// A run with output cells anywhere among, or right after, the cells it accesses.
fn output(n: u64, k: u64, high: u64, far: bool) {
    let low = if far { n + 5 } else { n + 1 };
    let (a, b) = (at(low, high), at(low, high));
    let (t, mut data) = nops(n, NOP, &[(a, b), (b, b)], far);
    let top = if a > b { a } else { b };
    let o = at(n + 1, high + 1);
    assume(o <= top + 1);
    for i in o..o + k {
        if data.get(&i).is_none() {
            data.insert(i, fe());
        }
    }
    let mut s = MemorySegmentMap::new();
    s.insert(MemorySegment::Output, o..o + k);
    let (_, all) = filled(t, CairoMemory::new(data), n as usize, s);
    reach!(o > n + k && o + k < a && a == high, "output between other cells");
    reach!(o == top + 1 && all as u64 == top + k, "output at the end");
    reach!(o == n + 1 && a > n + k + 1, "output after the program");
}
fn c27_output_1() {
    output(2, 1, 9, false)
}
fn c27_output_2() {
    output(2, 2, 9, false)
}
fn c27_output_4() {
    output(1, 4, 11, false)
}
fn c27_output_after_offsets() {
    output(1, 2, 11, true)
}
fn c27_output_deep() {
    output(3, 5, 16, false)
}
/// A range-check segment, cells of which the run may leave untouched, and an output segment after it.
fn c27_builtin() {
    let (a, b) = (at(3, 9), at(3, 9));
    let (t, mut data) = nops(2, NOP, &[(a, b), (a, a), (a, a)], false);
    let top = if a > b { a } else { b };
    let (r, k) = (at(3, 9), len(2) as u64);
    let out = any::<u8>() & 1 == 1;
    assume(r + k <= top + 1);
    for i in r..r + k + 2 {
        if data.get(&i).is_none() {
            data.insert(i, FE::new(lambdaworks_math::unsigned_integer::element::U256::from_limbs([0, 0, any(), any()])));
        }
    }
    let mut s = MemorySegmentMap::new();
    s.insert(MemorySegment::RangeCheck, r..r + k);
    if out {
        s.insert(MemorySegment::Output, r + k..r + k + 2);
    }
    let (rows, _) = filled(t, CairoMemory::new(data), 2, s);
    reach!(k == 2 && a > r + k + 2 && out && rows >= 8, "untouched cells");
    reach!(k == 0 && !out, "an empty segment");
}
/// `steps` instructions whose displacements are symbolic; `which` of them per instruction.
fn offsets(free: usize, near: u16, steps: usize, far: u16) {
    let mut data = HashMap::new();
    let mut rows = vec![];
    let mut k = 0;
    for i in 1..=steps as u64 {
        let mut d = [0x8000u16; 3];
        for x in d.iter_mut() {
            if k < free {
                *x = any();
                assume(*x >= 0x8000 - near && *x <= 0x8000 + near);
                k += 1;
            }
        }
        if i == steps as u64 && far != 0 {
            d[2] = 0x8000 + far;
        }
        data.insert(i, FE::from(NOP << 48 | d[0] as u64 | (d[1] as u64) << 16 | (d[2] as u64) << 32));
        rows.push(RegistersState { pc: i, ap: 40, fp: 40 });
    }
    for a in 40 - near as u64..=40 + near as u64 {
        data.insert(a, fe());
    }
    if far != 0 {
        data.insert(40 + far as u64, fe());
    }
    let (n, _) = filled(RegisterStates { rows }, CairoMemory::new(data), steps, MemorySegmentMap::new());
    reach!(n >= 8, "missing offsets");
}
fn c27_offsets_1() {
    offsets(3, 3, 1, 0)
}
fn c27_offsets_2() {
    offsets(4, 2, 2, 0)
}
fn c27_offsets_far() {
    offsets(2, 4, 2, 20)
}
fn c27_offsets_deep() {
    offsets(4, 4, 2, 0)
}
