//! C26: the auxiliary columns complete every padded Cairo trace.
use engine::cairo::*;
use engine::must::{always, Sym};
use engine::vm::*;
use engine::vspec::Cfg;
use engine::{c, prf_fe, report, sym, FE};
use lambdaworks_stark::cairo::air::{CairoAIR, MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::{frame::Frame, traits::AIR};
use std::cell::Cell;

/// A small run and its segments.
struct Run {
    label: String,
    steps: Vec<Step>,
    /// output and range-check cells; output cells are put `gap` after the program or right after the stack
    output: u64,
    gap: u64,
    checked: Option<u64>,
    reach: u64,
}
const STACK: u64 = 14;
impl Run {
    fn machine(&self, s: Sym) -> Result<Machine, String> {
        let mut m = Machine::new(&self.label, 1, (STACK, STACK + 8), STACK + 3, self.reach, 4);
        for x in &self.steps {
            m.execute(s, *x)?;
        }
        Ok(m)
    }
}
/// Which symbols are symbols: the challenges, or every `of`th memory cell starting with `from`.
#[derive(Clone, Copy)]
enum Open {
    Challenges,
    Memory(usize, usize),
}
fn check(run: &Run, open: Open, reached: &Cell<usize>) -> bool {
    let choose = |name: &str| -> bool {
        match (open, name.strip_prefix('m').and_then(|n| n.parse::<usize>().ok())) {
            (Open::Challenges, None) => true,
            (Open::Memory(from, of), Some(k)) => k % of == from,
            _ => false,
        }
    };
    let some = |name: &str, s: Sym| if choose(name) { s(name) } else { prf_fe(name, 0) };
    sym::reset();
    if run.machine(&|x| some(x, &|y| sym::symbol(y))).is_err() {
        return false;
    }
    sym::reset();
    let name = format!("{}{}", run.label, match open {
        Open::Challenges => ", all challenges".to_string(),
        Open::Memory(i, n) => format!(", memory cells {} modulo {}", i, n),
    });
    always(&name, &|s| {
        let t: Sym = &|x| some(x, s);
        let m = run.machine(t)?;
        for v in &m.nonzero {
            if *v == zero() {
                return Ok(());
            }
        }
        let mut memory = m.memory();
        let mut put = |a: u64| {
            memory.data.entry(a).or_insert_with(|| t(&format!("m{}", a)));
        };
        (1..=m.program).for_each(&mut put);
        let mut segments = MemorySegmentMap::new();
        if run.output > 0 {
            let top = m.memory.keys().max().unwrap();
            let o = if run.gap > 0 { m.program + run.gap } else { top + 1 };
            (o..o + run.output).for_each(&mut put);
            segments.insert(MemorySegment::Output, o..o + run.output);
        }
        if let Some(k) = run.checked {
            // cells the run has, with values of at most 128 bits
            let small: Vec<u64> = memory.data.iter().filter(|(a, v)| **a >= STACK && !sym::is_sym(v.value()) && v.representative().limbs[..2] == [0, 0]).map(|x| *x.0).collect();
            let mut at = 50_000;
            for a in small {
                if (a..a + k).all(|b| memory.data.get(&b).map_or(false, |v| !sym::is_sym(v.value()) && v.representative().limbs[..2] == [0, 0])) {
                    at = a;
                }
            }
            for i in 0..k {
                memory.data.entry(at + i).or_insert(c(0xffff_0001_0203 + i));
            }
            segments.insert(MemorySegment::RangeCheck, at..at + k);
        }
        let states = m.states();
        let mut p = PublicInputs::from_regs_and_mem(&states, &memory, m.program as usize, &segments);
        let main = build_main_trace(&states, &memory, &mut p);
        let n = main.n_rows();
        let cfg = Cfg { n, blowup: 4, offset: 3, iotas: vec![0] };
        let air = CairoAIR::new(n, &p, &cfg.options());
        let ch = challenges(t);
        let aux_trace = air.build_auxiliary_trace(&main, &ch);
        let b = run.checked.is_some();
        ok(aux_trace.n_rows() == n && main.n_cols + aux_trace.n_cols == columns(b), "the size of the trace")?;
        let row = |i: usize| -> Vec<FE> { [main.get_row(i).to_vec(), aux_trace.get_row(i).to_vec()].concat() };
        let all: Vec<Vec<FE>> = (0..n).map(row).collect();
        // the demands of the memory and range-check arguments
        for i in 0..n {
            let pair = Rows { r: [all[i].clone(), all[(i + 1) % n].clone()] };
            let here = |e: String| format!("row {}: {}", i, e);
            for k in 0..if i + 1 < n { 4 } else { 3 } {
                for r in pair.memory(b, k, &ch) {
                    r.map_err(here)?;
                }
            }
            for k in 0..if i + 1 < n { 3 } else { 2 } {
                for r in pair.offsets(b, k, &ch) {
                    r.map_err(here)?;
                }
            }
            if b {
                pair.chunks().map_err(here)?;
            }
        }
        let bounds = (p.range_check_min.unwrap(), p.range_check_max.unwrap());
        for (_, col, step, value, what) in wanted(&p, &ch, b, n, bounds) {
            ok(all[step][col] == value, &what)?;
        }
        // and those of the AIR itself
        let cx = air.context();
        for i in 0..n {
            let f = Frame::new([all[i].clone(), all[(i + 1) % n].clone()].concat(), all[0].len());
            for (k, v) in air.compute_transition(&f, &ch).iter().enumerate() {
                if i + cx.transition_exemptions[k] < n && *v != zero() {
                    return Err(format!("constraint {} does not vanish on row {} of {}", k, i, n));
                }
            }
        }
        for x in air.boundary_constraints(&ch).constraints {
            ok(all[x.step][x.col] == x.value, &format!("the boundary condition on column {} at row {}", x.col, x.step))?;
        }
        reached.set(reached.get() + 1);
        Ok(())
    });
    true
}
fn main() {
    functions();
    for f in ["cairo::air::CairoAIR::{build_auxiliary_trace, boundary_constraints} (and the functions they call)", "cairo::execution_trace::build_main_trace (and the functions it calls)", "PublicInputs::from_regs_and_mem"] {
        report::function(f);
    }
    report::bound("runs of 1 to 5 steps of any instructions, 8 to 64 rows, with 0 to 5 output cells in the memory of the run or after it, with and without a range-check segment of 0 to 2 cells; registers and displacements are given numbers; each run once with all challenges symbolic and given memory, and with a third of the memory cells symbolic and given challenges");
    report::assume("no access coincides with a challenge (z and the sorted cells differ)");
    let all = instructions();
    let mut runs = 0;
    let count = if engine::thorough() { 400 } else { 60 };
    let reached = Cell::new(0);
    for i in 0..count {
        let n = 1 + i % 5;
        let output = [0, 1, 4, 2, 0, 5, 3][i % 7];
        for t in 0..40 {
            let steps: Vec<Step> = (0..n).map(|k| step(all[(i * 367 + 101 * k + 59 * t + 13 * t * k) % all.len()])).collect();
            let run = Run {
                label: format!("run {} ({}) of {} steps{}{}", i, t, n, if output > 0 { format!(", {} output cells", output) } else { "".into() }, if i % 3 == 0 { format!(", {} range-checked cells", i / 3 % 3) } else { "".into() }),
                steps,
                output,
                gap: [0, 2, 3, 1][i % 4],
                checked: if i % 3 == 0 { Some(i as u64 / 3 % 3) } else { None },
                reach: [3, 5, 8][i % 3],
            };
            if !check(&run, Open::Challenges, &reached) {
                continue;
            }
            for k in 0..if engine::thorough() { 3 } else { 1 } {
                check(&run, Open::Memory((i + k) % 3, 3), &reached);
            }
            runs += 1;
            break;
        }
    }
    report::witness("runs", runs >= count - count / 10 && reached.get() > runs);
    if std::env::var("TIMES").is_ok() {
        eprintln!("{} runs", runs);
    }
    report::finish()
}
