//! C25: the main trace of a valid run satisfies the Cairo AIR.
use engine::cairo::*;
use engine::must::{always, Sym};
use engine::vm::*;
use engine::vspec::Cfg;
use engine::{c, report, sym, FE};
use lambdaworks_stark::cairo::air::{CairoAIR, MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_cairo_execution_trace;
use lambdaworks_stark::starks::{frame::Frame, traits::AIR};

/// The run of the given steps.
fn machine(s: Sym, label: &str, steps: &[Step], wide: bool) -> Result<Machine, String> {
    let mut m = if wide {
        Machine::new(label, 40000, (100000, 200000), 150000, 32768, 15000)
    } else {
        Machine::new(label, 60, (1000, 1060), 1030, 12, 20)
    };
    for x in steps {
        m.execute(s, *x)?;
    }
    Ok(m)
}
fn check(label: &str, steps: &[Step], wide: bool, builtin: bool) -> bool {
    sym::reset();
    if let Err(e) = machine(&|x| sym::symbol(x), label, steps, wide) {
        if std::env::var("VERBOSE").is_ok() {
            eprintln!("{}: {}", label, e);
        }
        return false;
    }
    sym::reset();
    let sample = rows(&|x| sym::symbol(x), builtin, None, None);
    let shapes: Vec<_> = air(&|x| sym::symbol(x), builtin, false, 8)
        .compute_transition(&sample.frame(), &challenges(&|x| sym::symbol(x)))
        .iter()
        .map(|v| ["C19", "C20", "C21"].iter().any(|p| belongs(v.value(), p, builtin)))
        .collect();
    sym::reset();
    let n = steps.len();
    always(label, &|s| {
        let m = machine(s, label, steps, wide)?;
        for v in &m.nonzero {
            if *v == zero() {
                return Ok(());
            }
        }
        let (t, mut memory) = (m.states(), m.memory());
        let mut segments = MemorySegmentMap::new();
        if builtin {
            segments.insert(MemorySegment::RangeCheck, 900_000..900_001);
            memory.data.insert(900_000, c(0x1234_5678_9abc_def0));
        }
        let p = PublicInputs::from_regs_and_mem(&t, &memory, 0, &segments);
        let trace = build_cairo_execution_trace(&t, &memory, &p);
        let main = if builtin { 43 } else { 34 };
        ok(trace.n_rows() == n && trace.n_cols == main, "the size of the trace")?;
        let row = |i: usize| -> Vec<FE> {
            let mut r = trace.get_row(i).to_vec();
            r.resize(columns(builtin), zero());
            r
        };
        let cfg = Cfg { n: 8, blowup: 4, offset: 3, iotas: vec![0] };
        let air = CairoAIR::new(8, &p, &cfg.options());
        for i in 0..n {
            let (pc, ap, fp) = m.states[i];
            let f = steps[i].flags;
            let here = |e: String| format!("row {}: {}", i, e);
            let r = row(i);
            ok(r[PC] == c(pc) && r[AP] == c(ap) && r[FP] == c(fp), "the registers").map_err(here)?;
            // cells are those of memory
            for k in 0..4 {
                let a = r[ADDR[k]].representative().limbs[3];
                ok(r[ADDR[k]] == c(a), "an address").map_err(here)?;
                let v = memory.data.get(&a).ok_or("an address outside memory").map_err(|e| here(e.to_string()))?;
                ok(r[VALUE[k]] == *v, &format!("the value of access {}", k)).map_err(here)?;
            }
            for j in 0..16 {
                ok(r[j] == c(bit(f, j) as u64), &format!("flag cell {}", j)).map_err(here)?;
            }
            for j in 0..3 {
                ok(r[OFF[j]] == c((m.offsets[i][j] + 0x8000) as u64), &format!("displacement {}", j)).map_err(here)?;
            }
            if i + 1 == n {
                continue;
            }
            ok(r[SELECTOR] == one(), "the selector of a step").map_err(here)?;
            let pair = Rows { r: [r, row(i + 1)] };
            pair.decoding().map_err(here)?;
            pair.machine(f).map_err(here)?;
            pair.arithmetic(f).map_err(here)?;
            ok(pair.hint(f), "the inverse in a conditional jump").map_err(here)?;
            let v = air.compute_transition(&Frame::new(pair.r.concat(), columns(builtin)), &challenges(&|_| one()));
            for k in 0..v.len() {
                if shapes[k] && v[k] != zero() {
                    return Err(format!("row {}: constraint {} does not vanish", i, k));
                }
            }
        }
        Ok(())
    });
    true
}
fn main() {
    functions();
    for f in ["cairo::execution_trace::build_cairo_execution_trace (and the functions it calls)", "RegisterStates::flags_and_offsets",
        "CairoInstructionFlags, InstructionOffsets", "PublicInputs::from_regs_and_mem"] {
        report::function(f);
    }
    report::bound("runs of 3 steps whose first step is any instruction (conditional jumps taken, with any destination other than 0, and not taken), followed by two others; registers and displacements are given numbers (quick: one choice within 12 or 32768 of the registers per instruction; thorough: four), memory is symbolic wherever a register does not depend on it");
    report::assume("pointers, jump targets and increments of ap are numbers");
    let all = instructions();
    let rounds = if engine::thorough() { 4 } else { 1 };
    let (mut some, mut none) = (vec![false; all.len()], 0);
    for round in 0..rounds {
        for (i, f) in all.iter().enumerate() {
            for kind in 0..if bit(*f, 9) { 3 } else { 1 } {
                let first = Step { flags: *f, taken: kind < 2, symbolic: kind == 0 };
                let mut found = false;
                for t in 0..6 {
                    let other = |k: usize| step(all[(i * 367 + 101 * k + 131 * round + 59 * t) % all.len()]);
                    let wide = (i + round + t) % 3 == 0;
                    let label = format!("instruction flags {:015b}{} (round {}, {})", f, ["", ", taken", ", not taken"][kind], round, t);
                    if check(&label, &[first, other(1), other(2)], wide, (i + round) % 5 == 0) {
                        found = true;
                        break;
                    }
                }
                some[i] |= found;
                none += !found as usize;
            }
        }
    }
    report::witness("a run for every instruction", some.iter().all(|x| *x));
    if std::env::var("TIMES").is_ok() {
        eprintln!("{} without a run", none);
    }
    report::finish()
}
