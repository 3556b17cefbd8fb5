//! C17, C18: instruction decoding.
use lambdaworks_math::unsigned_integer::element::U256;
use lambdaworks_stark::cairo::decode::{
    instruction_flags::{ApUpdate, CairoInstructionFlags, CairoOpcode, DstReg, Op0Reg, Op1Src, PcUpdate, ResLogic},
    instruction_offsets::InstructionOffsets,
};
use lambdaworks_stark::FE;
use nd::{any, assume, reach};

crate::harnesses! {
    c17_flags, 34;
    c17_offsets, 34;
    c17_any_element, 34;
    c18_flag_cells, 34;
    c18_offset_cells, 34;
}

fn one_hot(x: u64) -> bool {
    x == 0 || x == 1 || x == 2 || x == 4
}
fn defined(w: u64) -> bool {
    one_hot(w >> 50 & 7) && w >> 53 & 3 != 3 && one_hot(w >> 55 & 7) && w >> 58 & 3 != 3 && one_hot(w >> 60 & 7)
}
/// The value of a cell, when it fits 64 bits.
fn small(c: &FE) -> u64 {
    let l = c.representative().limbs;
    assert!(l[0] == 0 && l[1] == 0 && l[2] == 0);
    l[3]
}
fn word() -> u64 {
    let w: u64 = any();
    assume(w < 1 << 63);
    w
}

/// Every 63-bit word: refused iff a group is undefined, else each field is the one its bits select.
pub fn c17_flags() {
    let w = word();
    match CairoInstructionFlags::try_from(&FE::from(w)) {
        Err(_) => {
            assert!(!defined(w), "a defined word is refused");
            reach!(true, "a word is refused");
        }
        Ok(f) => {
            assert!(defined(w), "an undefined word is decoded");
            assert!((f.dst_reg == DstReg::FP) == (w >> 48 & 1 == 1), "dst register");
            assert!((f.op0_reg == Op0Reg::FP) == (w >> 49 & 1 == 1), "op0 register");
            let src = match w >> 50 & 7 {
                0 => Op1Src::Op0,
                1 => Op1Src::Imm,
                2 => Op1Src::FP,
                _ => Op1Src::AP,
            };
            assert!(f.op1_src == src, "op1 source");
            let res = match w >> 53 & 3 {
                0 => ResLogic::Op1,
                1 => ResLogic::Add,
                _ => ResLogic::Mul,
            };
            assert!(f.res_logic == res, "result logic");
            let pc = match w >> 55 & 7 {
                0 => PcUpdate::Regular,
                1 => PcUpdate::Jump,
                2 => PcUpdate::JumpRel,
                _ => PcUpdate::Jnz,
            };
            assert!(f.pc_update == pc, "pc update");
            let ap = match w >> 58 & 3 {
                0 => ApUpdate::Regular,
                1 => ApUpdate::Add,
                _ => ApUpdate::Add1,
            };
            assert!(f.ap_update == ap, "ap update");
            let op = match w >> 60 & 7 {
                0 => CairoOpcode::NOp,
                1 => CairoOpcode::Call,
                2 => CairoOpcode::Ret,
                _ => CairoOpcode::AssertEq,
            };
            assert!(f.opcode == op, "opcode");
            reach!(true, "a word is decoded");
        }
    }
}
/// The three offsets are the biased 16-bit fields minus 2^15.
pub fn c17_offsets() {
    let w = word();
    let o = InstructionOffsets::new(&FE::from(w));
    assert!(o.off_dst as i64 == (w & 0xffff) as i64 - 32768, "destination offset");
    assert!(o.off_op0 as i64 == (w >> 16 & 0xffff) as i64 - 32768, "op0 offset");
    assert!(o.off_op1 as i64 == (w >> 32 & 0xffff) as i64 - 32768, "op1 offset");
    reach!(o.off_dst < 0 && o.off_op0 > 0, "offsets of both signs");
}
/// Decoding does not panic whatever the memory cell holds.
pub fn c17_any_element() {
    let limbs: [u64; 4] = [any(), any(), any(), any()];
    assume(limbs[0] < 0x0800_0000_0000_0011);
    let v = FE::from(&U256::from_limbs(limbs));
    let f = CairoInstructionFlags::try_from(&v);
    let _ = InstructionOffsets::new(&v);
    reach!(f.is_ok(), "decoded");
}
pub fn c18_flag_cells() {
    let w = word();
    assume(defined(w));
    if let Ok(f) = CairoInstructionFlags::try_from(&FE::from(w)) {
        let cells = f.to_trace_representation();
        let mut sum = 0u64;
        for (i, c) in cells.iter().enumerate() {
            let b = small(c);
            assert!(b <= 1, "a flag cell is not a bit");
            sum += b << i;
        }
        assert!(small(&cells[15]) == 0, "the last flag cell is not zero");
        assert!(sum == w >> 48, "the flag cells do not weigh up to the word");
        reach!(true, "decoded");
    } else {
        panic!("a defined word is refused");
    }
}
pub fn c18_offset_cells() {
    let w = word();
    let o = InstructionOffsets::new(&FE::from(w));
    let c: [FE; 3] = o.to_trace_representation();
    assert!(small(&c[0]) < 1 << 16 && small(&c[1]) < 1 << 16 && small(&c[2]) < 1 << 16, "an offset cell exceeds 16 bits");
    assert!(small(&c[0]) | small(&c[1]) << 16 | small(&c[2]) << 32 == w & 0xffff_ffff_ffff, "the offset cells do not weigh up");
    reach!(true, "offsets");
}
