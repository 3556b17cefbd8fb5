//! C34: helper encodings.  C28: public inputs of a run.  C29: binary import and export.  C30: running programs.  C32: layout names.
use crate::inputs::*;
use cairo_vm::{
    env::{self, Outcome},
    felt::Felt252,
    vm::trace::trace_entry::TraceEntry,
};
use lambdaworks_math::unsigned_integer::element::U256;
use lambdaworks_stark::cairo::{
    air::{
        MemorySegment, MemorySegmentMap, PublicInputs, FRAME_DST, FRAME_DST_ADDR, FRAME_OP0, FRAME_OP0_ADDR, FRAME_OP1,
        FRAME_OP1_ADDR, OFF_DST, OFF_OP0, OFF_OP1, RC_0, RC_VALUE,
    },
    cairo_layout::CairoLayout,
    cairo_mem::CairoMemory,
    errors::CairoImportError,
    execution_trace::build_cairo_execution_trace,
    register_states::{RegisterStates, RegistersState},
    runner::{
        run::{generate_prover_args, run_program, CairoVersion, Error},
        vec_writer::VecWriter,
    },
};
use nd::mstd::collections::HashMap;
use nd::{any, assume, reach};

crate::harnesses! {
    c28_registers;
    c28_program;
    c28_output;
    c29_registers;
    c29_memory;
    c29_registers_back;
    c29_memory_back;
    c29_files;
    c30_version_0;
    c30_version_1;
    c30_segments;
    c30_sizes;
    c30_failures;
    c30_arguments_0;
    c30_arguments_1;
    c34_chunks;
    c34_displacements_pointer;
    c34_displacements_pc;
    c34_displacements_fp;
    c34_displacements_ap;
    c32_names;
    c32_distinct;
    c29_registers_deep;
    c29_memory_deep;
    c29_memory_back_deep;
    c28_program_deep;
    c30_segments_deep;
}

// ---- C32
fn layout(i: u8) -> CairoLayout {
    match i {
        0 => CairoLayout::Plain,
        1 => CairoLayout::Small,
        2 => CairoLayout::Dex,
        3 => CairoLayout::Recursive,
        4 => CairoLayout::Starknet,
        5 => CairoLayout::StarknetWithKeccak,
        6 => CairoLayout::RecursiveLargeOutput,
        7 => CairoLayout::AllCairo,
        8 => CairoLayout::AllSolidity,
        _ => CairoLayout::Dynamic,
    }
}
/// The names cairo-run's `--layout` option accepts.
const NAMES: [&str; 10] = [
    "plain",
    "small",
    "dex",
    "recursive",
    "starknet",
    "starknet_with_keccak",
    "recursive_large_output",
    "all_cairo",
    "all_solidity",
    "dynamic",
];
fn some_layout() -> u8 {
    let i: u8 = any();
    assume(i < 10);
    i
}
fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if a[i] != b[i] {
            return false;
        }
    }
    true
}
fn c32_names() {
    let i = some_layout();
    assert!(same_text(layout(i).as_str(), NAMES[i as usize]));
    reach!(i == 9, "the last layout");
}
fn c32_distinct() {
    let (i, j) = (some_layout(), some_layout());
    assert!(same_text(layout(i).as_str(), layout(j).as_str()) == (i == j));
    reach!(i != j, "two layouts");
}

// ---- C29
fn word(b: &[u8]) -> u64 {
    let mut r = 0u64;
    for i in 0..8 {
        r |= (b[i] as u64) << (8 * i);
    }
    r
}
fn felt(b: &[u8]) -> FE {
    FE::new(U256::from_limbs([word(&b[24..]), word(&b[16..]), word(&b[8..]), word(b)]))
}
fn bytes<const N: usize>(n: usize) -> Vec<u8> {
    let b: [u8; N] = any();
    b[..n].to_vec()
}
fn read_registers(b: &[u8], r: Result<RegisterStates, CairoImportError>) {
    match r {
        Ok(t) => {
            assert!(b.len() == 24 * t.rows.len() && t.steps() == t.rows.len());
            for (i, s) in t.rows.iter().enumerate() {
                let row = &b[24 * i..24 * (i + 1)];
                assert!(s.ap == word(row) && s.fp == word(&row[8..]) && s.pc == word(&row[16..]));
            }
            reach!(t.rows.len() == 2, "two states read");
        }
        Err(_) => {
            assert!(b.len() % 24 != 0);
            reach!(b.len() > 24, "a trace of an impossible length");
        }
    }
}
fn registers<const N: usize>() {
    let n = len(N);
    let b = bytes::<N>(n);
    let r = RegisterStates::from_bytes_le(&b);
    read_registers(&b, r);
}
fn c29_registers() {
    registers::<76>()
}
fn c29_registers_deep() {
    registers::<250>()
}
fn read_memory(b: &[u8], r: Result<CairoMemory, CairoImportError>) {
    match r {
        Ok(m) => {
            assert!(b.len() % 40 == 0);
            let n = b.len() / 40;
            let mut cells = 0;
            for i in 0..n {
                let a = word(&b[40 * i..]);
                // the cell holds the last value written to its address
                let mut last = true;
                for j in i + 1..n {
                    last &= word(&b[40 * j..]) != a;
                }
                if last {
                    cells += 1;
                    assert!(m.get(&a) == Some(&felt(&b[40 * i + 8..])));
                }
            }
            assert!(m.len() == cells && m.is_empty() == (cells == 0));
            reach!(n == 2, "two cells read");
        }
        Err(_) => {
            assert!(b.len() % 40 != 0);
            reach!(b.len() > 40, "a memory of an impossible length");
        }
    }
}
fn memory<const N: usize>() {
    let n = len(N);
    let b = bytes::<N>(n);
    let r = CairoMemory::from_bytes_le(&b);
    read_memory(&b, r);
}
fn c29_memory() {
    memory::<124>()
}
fn c29_memory_deep() {
    memory::<168>()
}
fn c29_files() {
    let n = len(50);
    let b = bytes::<50>(n);
    let path = nd::file::put(&b);
    read_registers_file(&b, &path);
    let r = CairoMemory::from_file(&path);
    match r {
        Ok(m) => assert!(b.len() % 40 == 0 && m.len() == b.len() / 40),
        Err(_) => assert!(b.len() % 40 != 0),
    }
    assert!(RegisterStates::from_file(nd::file::MISSING).is_err());
    assert!(CairoMemory::from_file(nd::file::MISSING).is_err());
}
fn read_registers_file(b: &[u8], path: &str) {
    match RegisterStates::from_file(path) {
        Ok(t) => {
            assert!(b.len() == 24 * t.rows.len());
            reach!(t.rows.len() == 2, "two states read from a file");
        }
        Err(_) => assert!(b.len() % 24 != 0),
    }
}
fn entries(n: usize) -> Vec<TraceEntry> {
    list(n, || TraceEntry { pc: any(), ap: any(), fp: any() })
}
fn same_registers(t: &RegisterStates, e: &[TraceEntry]) {
    assert!(t.rows.len() == e.len());
    for i in 0..e.len() {
        assert!(t.rows[i].pc == e[i].pc as u64 && t.rows[i].ap == e[i].ap as u64 && t.rows[i].fp == e[i].fp as u64);
    }
}
fn c29_registers_back() {
    let e = entries(len(3));
    let mut b = vec![];
    let mut w = VecWriter::new(&mut b);
    w.write_encoded_trace(&e);
    assert!(w.flush().is_ok());
    match RegisterStates::from_bytes_le(&b) {
        Ok(t) => same_registers(&t, &e),
        Err(_) => assert!(false),
    }
    reach!(e.len() == 3, "three states");
}
fn canonical() -> Felt252 {
    let v = fe();
    let l = v.representative().limbs;
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&l[3 - i].to_le_bytes());
    }
    Felt252(b)
}
fn cells(n: usize) -> Vec<Option<Felt252>> {
    list(n, || if any::<u8>() & 1 == 1 { Some(canonical()) } else { None })
}
fn same_memory(m: &CairoMemory, c: &[Option<Felt252>]) {
    let mut n = 0;
    for (i, v) in c.iter().enumerate() {
        match v {
            Some(v) => {
                n += 1;
                assert!(m.get(&(i as u64)) == Some(&felt(&v.0)));
            }
            None => assert!(m.get(&(i as u64)).is_none()),
        }
    }
    assert!(m.len() == n);
}
fn memory_back(max: usize) {
    let c = cells(len(max));
    let mut b = vec![];
    let mut w = VecWriter::new(&mut b);
    w.write_encoded_memory(&c);
    assert!(w.flush().is_ok());
    match CairoMemory::from_bytes_le(&b) {
        Ok(m) => same_memory(&m, &c),
        Err(_) => assert!(false),
    }
    reach!(c.len() > 2 && c[0].is_none() && c[1].is_some() && c[2].is_some(), "memory with a gap");
}
fn c29_memory_back() {
    memory_back(4)
}
fn c29_memory_back_deep() {
    memory_back(6)
}

// ---- C28
fn states(n: usize) -> RegisterStates {
    RegisterStates { rows: list(n, || RegistersState { pc: any(), fp: any(), ap: any() }) }
}
fn same_ends(p: &PublicInputs, t: &RegisterStates) {
    let (first, last) = (&t.rows[0], &t.rows[t.rows.len() - 1]);
    assert!(p.pc_init == FE::from(first.pc) && p.ap_init == FE::from(first.ap) && p.fp_init == FE::from(first.fp));
    assert!(p.pc_final == FE::from(last.pc) && p.ap_final == FE::from(last.ap));
    assert!(p.num_steps == t.rows.len());
}
fn c28_registers() {
    let n = len(4);
    assume(n > 0);
    let t = states(n);
    let p = PublicInputs::from_regs_and_mem(&t, &CairoMemory::new(HashMap::new()), 0, &MemorySegmentMap::new());
    same_ends(&p, &t);
    assert!(p.public_memory.is_empty() && p.memory_segments.is_empty());
    reach!(n == 4, "four steps");
}
/// Every cell of `p` is a cell of the program or of the output, and the other way round.
fn same_public_memory(p: &PublicInputs, m: &CairoMemory, program: usize, output: Option<(u64, usize)>) {
    let mut n = 0;
    for a in 1..=program as u64 {
        assert!(p.public_memory.get(&FE::from(a)) == m.get(&a));
        n += 1;
    }
    if let Some((start, len)) = output {
        for i in 0..len as u64 {
            let a = start + i;
            assert!(p.public_memory.get(&FE::from(a)) == m.get(&a));
            if a == 0 || a > program as u64 {
                n += 1;
            }
        }
    }
    assert!(p.public_memory.len() == n);
}
fn program(max: usize, beyond: u64) {
    let size = len(max);
    let mut data = HashMap::new();
    for a in 0..size as u64 + 1 + beyond {
        data.insert(a, fe());
    }
    let m = CairoMemory::new(data);
    let t = states(1);
    let rc = any::<u8>() & 1 == 1;
    let mut segments = MemorySegmentMap::new();
    let (s, e) = (any(), any());
    if rc {
        segments.insert(MemorySegment::RangeCheck, s..e);
    }
    let p = PublicInputs::from_regs_and_mem(&t, &m, size, &segments);
    same_public_memory(&p, &m, size, None);
    same_ends(&p, &t);
    let wanted = if rc { Some(s..e) } else { None };
    assert!(p.memory_segments.get(&MemorySegment::RangeCheck) == wanted.as_ref());
    assert!(p.memory_segments.get(&MemorySegment::Output).is_none());
    reach!(size == 3 && rc, "a program of three cells");
}
fn c28_program() {
    program(4, 2)
}
fn c28_program_deep() {
    program(8, 4)
}
fn c28_output() {
    let size = len(3);
    let n = len(3);
    let start: u64 = any();
    assume(start < u64::MAX - 3);
    let mut data = HashMap::new();
    for a in 0..n as u64 {
        data.insert(start + a, fe());
    }
    for a in 1..=size as u64 {
        data.insert(a, fe());
    }
    let m = CairoMemory::new(data);
    let t = states(2);
    let mut segments = MemorySegmentMap::new();
    segments.insert(MemorySegment::Output, start..start + n as u64);
    let p = PublicInputs::from_regs_and_mem(&t, &m, size, &segments);
    same_ends(&p, &t);
    same_public_memory(&p, &m, size, Some((start, n)));
    assert!(p.memory_segments.len() == 1 && p.memory_segments.get(&MemorySegment::Output) == Some(&(start..start + n as u64)));
    reach!(size == 3 && n == 3 && start == 2, "an output inside the program");
    reach!(size == 3 && n == 3 && start == 1 << 60, "an output far away");
}

// ---- C30
const PROGRAM: &[u8] = b"{\"a\": 1}";
fn installed(o: &Outcome) {
    env::set(o.clone());
}
fn right(r: Result<(RegisterStates, CairoMemory, usize, Option<core::ops::Range<u64>>), Error>, o: &Outcome) {
    match r {
        Ok((t, m, size, range)) => {
            same_registers(&t, o.trace.as_ref().unwrap());
            same_memory(&m, &o.memory);
            assert!(size == o.data_len);
            match o.range_check {
                None => assert!(range.is_none()),
                Some((segment, stop)) => {
                    let mut start = 1;
                    for s in &o.segment_sizes[..segment] {
                        start += s.unwrap_or(0) as u64;
                    }
                    assert!(range == Some(start..start + stop.unwrap_or(0) as u64));
                }
            }
        }
        Err(_) => assert!(false),
    }
}
fn asked(l: u8, entrypoint: Option<&str>) {
    let s = env::seen();
    assert!(s.runs == 1 && s.trace_enabled && s.relocate_mem && !s.proof_mode);
    assert!(same_text(&s.layout, NAMES[l as usize]));
    if let Some(e) = entrypoint {
        assert!(same_text(&s.entrypoint, e) && s.program == PROGRAM);
    }
}
fn c30_version_0() {
    let l = some_layout();
    let o = Outcome {
        fail: false,
        trace: Some(entries(1)),
        memory: vec![None, Some(canonical())],
        data_len: any(),
        segment_sizes: vec![],
        range_check: None,
    };
    installed(&o);
    let which = len(2);
    let entry = match which {
        0 => None,
        1 => Some("main"),
        _ => Some("f"),
    };
    right(run_program(entry, layout(l), PROGRAM, &CairoVersion::V0), &o);
    asked(l, Some(if which == 2 { "f" } else { "main" }));
    assert!(!env::seen().cairo1);
    reach!(which == 2 && l == 3, "version 0 with its own entrypoint");
}
fn c30_version_1() {
    let l = some_layout();
    let n = len(2);
    let o = Outcome {
        fail: false,
        trace: Some(entries(n)),
        memory: cells(len(2)),
        data_len: any(),
        segment_sizes: vec![Some(any::<u8>() as usize)],
        range_check: Some((1, Some(any::<u8>() as usize))),
    };
    assume(o.data_len < 1 << 40);
    installed(&o);
    right(run_program(None, layout(l), PROGRAM, &CairoVersion::V1), &o);
    asked(l, None);
    assert!(env::seen().cairo1);
    reach!(l == 0 && n == 2, "version 1");
}
fn c30_sizes() {
    let n = len(3);
    let c = cells(len(5));
    let o = Outcome { fail: false, trace: Some(entries(n)), memory: c, data_len: any(), segment_sizes: vec![], range_check: None };
    installed(&o);
    right(run_program(None, CairoLayout::Small, PROGRAM, &CairoVersion::V0), &o);
    reach!(n == 3, "three steps");
}
fn segments(max: usize) {
    let k = len(max);
    let at = len(max);
    assume(at <= k);
    let size = || if any::<u8>() & 1 == 1 { Some(any::<u32>() as usize) } else { None };
    let sizes = list(k, size);
    let stop = size();
    let o = Outcome {
        fail: false,
        trace: Some(entries(1)),
        memory: vec![],
        data_len: 1,
        segment_sizes: sizes,
        range_check: Some((at, stop)),
    };
    installed(&o);
    right(run_program(None, CairoLayout::Small, PROGRAM, &CairoVersion::V0), &o);
    reach!(at == 2 && k == 3 && o.segment_sizes[0].is_none() && stop.is_some(), "a range-check segment after two others");
    reach!(at == 0, "the first segment");
    reach!(stop.is_none(), "no stop address");
}
fn c30_segments() {
    segments(3)
}
fn c30_segments_deep() {
    segments(4)
}
/// A run that fails, or leaves no trace, is an error.
fn c30_failures() {
    let fail = any::<u8>() & 1 == 1;
    let o = Outcome {
        fail,
        trace: if fail { Some(entries(1)) } else { None },
        memory: vec![Some(canonical())],
        data_len: any(),
        segment_sizes: vec![],
        range_check: None,
    };
    installed(&o);
    assert!(run_program(None, CairoLayout::Small, PROGRAM, &CairoVersion::V0).is_err());
    reach!(fail, "a run that fails");
    reach!(!fail, "a run without a trace");
}
/// `[ap] = 5; ap++` and `ret` from the frame of main.
fn small_run(range_check: Option<(usize, Option<usize>)>, cells: usize) -> Outcome {
    let n = |x: u64| Some(Felt252::from(x));
    let mut memory = vec![None, n(0x480680017fff8000), n(5), n(0x208b7fff7fff7ffe), n(20), n(21), None];
    for _ in 0..cells {
        memory.push(n(any::<u16>() as u64));
    }
    memory[6] = n(5);
    Outcome {
        fail: false,
        trace: Some(vec![TraceEntry { pc: 1, ap: 6, fp: 6 }, TraceEntry { pc: 3, ap: 7, fp: 6 }]),
        memory,
        data_len: 3,
        segment_sizes: vec![Some(3), Some(3)],
        range_check,
    }
}
fn arguments(version: CairoVersion, l: u8) {
    let rc = any::<u8>() & 1 == 1;
    let out = any::<u8>() & 1 == 1;
    let size = len(2);
    let o = small_run(if rc { Some((2, Some(size))) } else { None }, 4);
    installed(&o);
    let (a, k) = (len(10) as u64, len(2) as u64);
    assume(a > 6 && a + k <= 11);
    let output = if out { Some(a..a + k) } else { None };
    match generate_prover_args(PROGRAM, &version, &output) {
        Ok((_, p)) => {
            assert!(p.memory_segments.len() == rc as usize + out as usize);
            assert!(p.memory_segments.get(&MemorySegment::RangeCheck) == if rc { Some(7..7 + size as u64) } else { None }.as_ref());
            assert!(p.memory_segments.get(&MemorySegment::Output) == output.as_ref());
            let t = o.trace.as_ref().unwrap();
            assert!(p.num_steps == 2 && p.pc_init == FE::from(t[0].pc as u64) && p.pc_final == FE::from(t[1].pc as u64));
            assert!(p.public_memory.len() == 3 + if out { k as usize } else { 0 });
            for i in 1..4 {
                assert!(p.public_memory.get(&FE::from(i as u64)) == Some(&felt(&o.memory[i].unwrap().0)));
            }
        }
        Err(_) => assert!(false),
    }
    asked(l, if l == 1 { Some("main") } else { None });
    reach!(rc && out && k == 2 && size == 2, "both segments");
    reach!(!rc && !out, "no segment");
}
fn c30_arguments_0() {
    arguments(CairoVersion::V0, 1)
}
fn c30_arguments_1() {
    arguments(CairoVersion::V1, 0)
}

// ---- C34
fn no_inputs() -> PublicInputs {
    PublicInputs {
        pc_init: FE::zero(),
        ap_init: FE::zero(),
        fp_init: FE::zero(),
        pc_final: FE::zero(),
        ap_final: FE::zero(),
        range_check_min: None,
        range_check_max: None,
        memory_segments: MemorySegmentMap::new(),
        public_memory: HashMap::new(),
        num_steps: 0,
    }
}
fn c34_chunks() {
    let n = len(3);
    let mut data = HashMap::new();
    // four times `[ap] = [ap]` from a frame at 10
    data.insert(1u64, FE::from(0x4010800080008000u64));
    data.insert(10, fe());
    let mut values = vec![];
    for i in 0..n as u64 {
        let (high, low): (u64, u64) = (any(), any());
        values.push((high, low));
        data.insert(20 + i, FE::new(U256::from_limbs([0, 0, high, low])));
    }
    let mut p = no_inputs();
    p.memory_segments.insert(MemorySegment::RangeCheck, 20..20 + n as u64);
    let t = RegisterStates { rows: list(4, || RegistersState { pc: 1, ap: 10, fp: 10 }) };
    let trace = build_cairo_execution_trace(&t, &CairoMemory::new(data), &p);
    assert!(trace.n_rows() == 4);
    for i in 0..4 {
        let (high, low) = if i < n { values[i] } else { (0, 0) };
        for c in 0..8 {
            let half = if c < 4 { low } else { high };
            assert!(trace.get(i, RC_0 + c) == FE::from((half >> (16 * (c % 4))) & 0xffff));
        }
        assert!(trace.get(i, RC_VALUE) == FE::new(U256::from_limbs([0, 0, high, low])));
    }
    reach!(n == 3, "three range-checked values");
}
/// `base` plus the biased displacement `d`.
fn moved(base: u64, d: u16) -> u64 {
    let a = base.wrapping_add(d as u64).wrapping_sub(0x8000);
    assume((a >= base) == (d >= 0x8000)); // no wrap
    a
}
fn put(data: &mut HashMap<u64, FE>, a: u64) -> FE {
    match data.get(&a) {
        Some(v) => *v,
        None => {
            let v = small();
            data.insert(a, v);
            v
        }
    }
}
fn displacements(source: usize) {
    let (dst_fp, op0_fp) = (len(1), len(1));
    let (d, d0, d1): (u16, u16, u16) = (any(), any(), any());
    // op1: [op0], [pc], [fp] or [ap]
    let flags = dst_fp as u64 | (op0_fp as u64) << 1 | [0, 4, 8, 16][source];
    let word = d as u64 | (d0 as u64) << 16 | (d1 as u64) << 32 | flags << 48;
    let (pc, ap, fp): (u64, u64, u64) = (any(), any(), any());
    let mut data = HashMap::new();
    data.insert(pc, FE::from(word));
    let dst_addr = moved(if dst_fp == 1 { fp } else { ap }, d);
    let op0_addr = moved(if op0_fp == 1 { fp } else { ap }, d0);
    let dst = put(&mut data, dst_addr);
    let op0 = put(&mut data, op0_addr);
    let base = match source {
        0 => op0.representative().limbs[3],
        1 => pc,
        2 => fp,
        _ => ap,
    };
    let op1_addr = moved(base, d1);
    let op1 = put(&mut data, op1_addr);
    let rows = vec![RegistersState { pc, ap, fp }];
    let trace = build_cairo_execution_trace(&RegisterStates { rows }, &CairoMemory::new(data), &no_inputs());
    assert!(trace.n_rows() == 1);
    assert!(trace.get(0, FRAME_DST_ADDR) == FE::from(dst_addr) && trace.get(0, FRAME_DST) == dst);
    assert!(trace.get(0, FRAME_OP0_ADDR) == FE::from(op0_addr) && trace.get(0, FRAME_OP0) == op0);
    assert!(trace.get(0, FRAME_OP1_ADDR) == FE::from(op1_addr) && trace.get(0, FRAME_OP1) == op1);
    assert!(trace.get(0, OFF_DST) == FE::from(d as u64));
    assert!(trace.get(0, OFF_OP0) == FE::from(d0 as u64));
    assert!(trace.get(0, OFF_OP1) == FE::from(d1 as u64));
    reach!(d1 < 0x8000 && op0_fp == 1, "an operand before its base");
    reach!(dst_fp == 1 && d == 0, "the smallest displacement");
}
fn c34_displacements_pointer() {
    displacements(0)
}
fn c34_displacements_pc() {
    displacements(1)
}
fn c34_displacements_fp() {
    displacements(2)
}
fn c34_displacements_ap() {
    displacements(3)
}
