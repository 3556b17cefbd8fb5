//! C33: each example AIR holds exactly on the sequence it describes, which its generator produces.
use engine::must::{decide, Always, Sym};
use engine::vspec::Cfg;
use engine::{c, report, sym, F, FE};
use lambdaworks_stark::starks::example::{
    dummy_air::{self, DummyAIR}, fibonacci_2_columns::{self, Fibonacci2ColsAIR}, fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
    quadratic_air::{self, QuadraticAIR, QuadraticPublicInputs}, simple_fibonacci::{self, FibonacciAIR, FibonacciPublicInputs},
};
use lambdaworks_stark::starks::{frame::Frame, trace::TraceTable, traits::AIR};
use std::rc::Rc;

type Cols = Vec<Vec<FE>>;
fn air_holds<A: AIR<Field = F>>(cfg: &Cfg, cols: &Cols, pi: &A::PublicInputs, r: &A::RAPChallenges) -> Result<bool, String> {
    let air = A::new(cfg.n, pi, &cfg.options());
    let n = cfg.n;
    let cx = air.context();
    if cx.trace_columns != cols.len() || air.trace_length() != n {
        return Err("the AIR declares another shape".into());
    }
    for b in air.boundary_constraints(r).constraints {
        if cols[b.col][b.step] != b.value {
            return Ok(false);
        }
    }
    for i in 0..n {
        let mut data = vec![];
        for o in &cx.transition_offsets {
            for k in cols {
                data.push(k[(i + o) % n]);
            }
        }
        let v = air.compute_transition(&Frame::new(data, cols.len()), r);
        if v.len() != cx.num_transition_constraints || v.len() != cx.transition_degrees.len() || v.len() != cx.transition_exemptions.len() {
            return Err("the AIR declares another number of transition constraints".into());
        }
        for (k, x) in v.iter().enumerate() {
            if i + cx.transition_exemptions[k] < n && *x != FE::zero() {
                return Ok(false);
            }
        }
    }
    Ok(true)
}
type Conds<'a> = &'a dyn Fn(Sym, &Cols) -> Vec<FE>;
struct Setup<'a, A: AIR<Field = F>> {
    name: String,
    n: usize,
    columns: usize,
    pi: &'a dyn Fn(Sym) -> A::PublicInputs,
    rap: &'a dyn Fn(Sym) -> A::RAPChallenges,
    nonzero: &'a dyn Fn(&Cols) -> Vec<FE>,
}
impl<A: AIR<Field = F>> Setup<'_, A> {
    fn run(&self, what: &str, f: &dyn Fn(Sym, &Cols, &dyn Fn() -> Result<bool, String>) -> Result<(), String>) {
        let cfg = Cfg { n: self.n, blowup: 4, offset: 3, iotas: vec![0] };
        let cols = |s: Sym| -> Cols { (0..self.columns).map(|k| (0..self.n).map(|i| s(&format!("t{}_{}", k, i))).collect()).collect() };
        sym::reset();
        let nz = (self.nonzero)(&cols(&|x| sym::symbol(x)));
        decide(&Always {
            name: format!("{} n={}: {}", self.name, self.n, what),
            max_paths: 5000,
            known: Rc::new(|_| None),
            nonzero: nz,
            run: &|s| {
                let t = cols(s);
                f(s, &t, &|| air_holds::<A>(&cfg, &t, &(self.pi)(s), &(self.rap)(s)))
            },
            default: &|_| None,
        });
    }
    /// The constraints imply the conditions.
    fn only(&self, what: &str, conds: Conds) {
        self.run(what, &|s, t, holds| {
            if !holds()? {
                return Ok(());
            }
            for (i, v) in conds(s, t).iter().enumerate() {
                if *v != FE::zero() {
                    return Err(format!("the constraints hold although condition {} of the sequence fails", i));
                }
            }
            Ok(())
        })
    }
    /// The conditions imply the constraints.
    fn all(&self, what: &str, conds: Conds) {
        self.run(what, &|s, t, holds| {
            for v in conds(s, t) {
                if v != FE::zero() {
                    return Ok(());
                }
            }
            if !holds()? {
                return Err("the described sequence is refused".into());
            }
            Ok(())
        })
    }
}
/// `wanted` lists what has to vanish for the columns to be the described sequence.
fn check<A: AIR<Field = F>>(name: &str, n: usize, columns: usize, pi: &dyn Fn(Sym) -> A::PublicInputs, rap: &dyn Fn(Sym) -> A::RAPChallenges, wanted: Conds, described: Conds, nonzero: &dyn Fn(&Cols) -> Vec<FE>) {
    let s = Setup::<A> { name: name.to_string(), n, columns, pi, rap, nonzero };
    s.only("only the described sequence satisfies the constraints", wanted);
    s.all("the described sequence satisfies the constraints", described);
}
/// The generator's table, and its auxiliary columns, are the described sequence.
fn generator<A: AIR<Field = F>>(name: &str, main: &dyn Fn(Sym) -> TraceTable<F>, pi: &dyn Fn(Sym) -> A::PublicInputs, rap: &dyn Fn(Sym) -> A::RAPChallenges, wanted: &dyn Fn(Sym, &Cols) -> Vec<FE>, rows: usize, nonzero: &dyn Fn() -> Vec<FE>) {
    sym::reset();
    let cfg = Cfg { n: rows, blowup: 4, offset: 3, iotas: vec![0] };
    decide(&Always {
        name: format!("{}: generated trace of {} rows", name, rows),
        max_paths: 5000,
        known: Rc::new(|_| None),
        nonzero: nonzero(),
        run: &|s| {
            let t = main(s);
            if t.n_rows() != rows {
                return Err(format!("{} rows", t.n_rows()));
            }
            let air = A::new(rows, &pi(s), &cfg.options());
            let r = rap(s);
            let aux = air.build_auxiliary_trace(&t, &r);
            if aux.n_cols != air.number_auxiliary_rap_columns() {
                return Err("wrong number of auxiliary columns".into());
            }
            let mut cols = t.cols();
            cols.extend(aux.cols());
            if cols.iter().any(|k| k.len() != rows) {
                return Err("columns of different lengths".into());
            }
            for (i, v) in wanted(s, &cols).iter().enumerate() {
                if *v != FE::zero() {
                    return Err(format!("condition {} of the sequence fails", i));
                }
            }
            if !air_holds::<A>(&cfg, &cols, &pi(s), &r)? {
                return Err("the generated trace does not satisfy the constraints".into());
            }
            Ok(())
        },
        default: &|_| None,
    });
}
fn closed_form(a0: FE, a1: FE, i: usize) -> FE {
    // the i-th term is F(i-1) a0 + F(i) a1
    let (mut p, mut q) = (FE::one(), FE::zero());
    for _ in 0..i {
        let t = p + q;
        p = q;
        q = t;
    }
    p * a0 + q * a1
}
fn main() {
    report::patient();
    for f in ["starks::example::*: new, boundary_constraints, compute_transition, build_auxiliary_trace and the trace generators"] {
        report::function(f);
    }
    report::bound("lengths 4, 8 and 16 (thorough: 32), every cell, public input and AIR challenge symbolic; Fibonacci RAP with every number of steps from 3 that the length admits");
    report::assume("Fibonacci RAP: no cell of the second column is the negated challenge (the running product is then undefined)");
    let none: &dyn Fn(&Cols) -> Vec<FE> = &|_| vec![];
    let none0: &dyn Fn() -> Vec<FE> = &|| vec![];
    let unit: &dyn Fn(Sym) = &|_| ();
    let fp: &dyn Fn(Sym) -> FibonacciPublicInputs<F> = &|s| FibonacciPublicInputs { a0: s("a0"), a1: s("a1") };
    let qp: &dyn Fn(Sym) -> QuadraticPublicInputs<F> = &|s| QuadraticPublicInputs { a0: s("a0") };
    let fib: &dyn Fn(Sym, &Cols) -> Vec<FE> = &|s, t| (0..t[0].len()).map(|i| t[0][i] - closed_form(s("a0"), s("a1"), i)).collect();
    let fib2: &dyn Fn(Sym, &Cols) -> Vec<FE> =
        &|s, t| (0..t[0].len()).flat_map(|i| [t[0][i] - closed_form(s("a0"), s("a1"), 2 * i), t[1][i] - closed_form(s("a0"), s("a1"), 2 * i + 1)]).collect();
    let quad: &dyn Fn(Sym, &Cols) -> Vec<FE> = &|s, t| (0..t[0].len()).map(|i| t[0][i] - s("a0").pow(1u64 << i)).collect();
    let quad_step: &dyn Fn(Sym, &Cols) -> Vec<FE> =
        &|s, t| (0..t[0].len()).map(|i| if i == 0 { t[0][0] - s("a0") } else { t[0][i] - t[0][i - 1].pow(2u64) }).collect();
    let dummy: &dyn Fn(Sym, &Cols) -> Vec<FE> =
        &|_, t| (0..t[0].len()).flat_map(|i| [t[1][i] - closed_form(c(1), c(1), i), t[0][i].pow(2u64) - t[0][i]]).collect();
    let ns: &[usize] = if engine::thorough() { &[4, 8, 16, 32] } else { &[4, 8, 16] };
    for &n in ns {
        check::<FibonacciAIR<F>>("simple Fibonacci", n, 1, fp, unit, fib, fib, none);
        generator::<FibonacciAIR<F>>("simple Fibonacci", &|s| simple_fibonacci::fibonacci_trace([s("a0"), s("a1")], n), fp, unit, fib, n, none0);
        check::<Fibonacci2ColsAIR<F>>("two-column Fibonacci", n, 2, fp, unit, fib2, fib2, none);
        generator::<Fibonacci2ColsAIR<F>>("two-column Fibonacci", &|s| fibonacci_2_columns::fibonacci_trace_2_columns([s("a0"), s("a1")], n), fp, unit, fib2, n, none0);
        let q = if n <= 8 { quad } else { quad_step };
        check::<QuadraticAIR<F>>("quadratic", n, 1, qp, unit, q, q, none);
        if n <= 8 {
            generator::<QuadraticAIR<F>>("quadratic", &|s| quadratic_air::quadratic_trace(s("a0"), n), qp, unit, quad, n, none0);
        }
        check::<DummyAIR>("dummy", n, 2, unit, unit, dummy, dummy, none);
        generator::<DummyAIR>("dummy", &|_| dummy_air::dummy_trace::<F>(n), unit, unit, dummy, n, none0);
        if n > 8 {
            continue;
        }
        for steps in 3..n {
            let gamma: &dyn Fn(Sym) -> FE = &|s| s("gamma");
            let rp: &dyn Fn(Sym) -> FibonacciRAPPublicInputs<F> = &|s| FibonacciRAPPublicInputs { steps, a0: s("a0"), a1: s("a1") };
            let name = format!("Fibonacci RAP with {} steps", steps);
            let one_input: &dyn Fn(Sym) -> FibonacciRAPPublicInputs<F> =
                &|_| FibonacciRAPPublicInputs { steps, a0: FE::one(), a1: FE::one() };
            let nonzero: &dyn Fn(&Cols) -> Vec<FE> = &|t| {
                let f: Vec<FE> = t[1].iter().map(|b| *b + engine::s("gamma")).collect();
                (0..n).map(|i| f[..i].iter().fold(FE::one(), |a, b| a * *b)).chain(f.clone()).collect()
            };
            // the first column runs for `steps` rows
            let recurrence = |t: &Cols| -> Vec<FE> { (2..steps).map(|i| t[0][i] - t[0][i - 1] - t[0][i - 2]).collect() };
            // the third is the running product of (gamma + first) / (gamma + second)
            let product = |s: Sym, t: &Cols| -> Vec<FE> {
                let mut out = vec![t[2][0] - FE::one()];
                for i in 0..n - 1 {
                    out.push(t[2][i + 1] * (t[1][i] + s("gamma")) - t[2][i] * (t[0][i] + s("gamma")));
                }
                out
            };
            // and it ends in one
            let closed = |s: Sym, t: &Cols| -> Vec<FE> {
                let (mut num, mut den) = (FE::one(), FE::one());
                for i in 0..n - 1 {
                    num = num * (t[0][i] + s("gamma"));
                    den = den * (t[1][i] + s("gamma"));
                }
                vec![num - den]
            };
            let st = |pi| Setup::<FibonacciRAP<F>> { name: name.clone(), n, columns: 3, pi, rap: gamma, nonzero };
            let start = |s: Sym, t: &Cols| vec![t[0][0] - s("a0"), t[0][1] - s("a1")];
            st(rp).only("only a Fibonacci recurrence satisfies the constraints", &|_, t| recurrence(t));
            st(rp).only("only the running product satisfies the constraints", &|s, t| product(s, t));
            st(rp).only("only sequences that start with the public inputs satisfy the constraints", &start);
            st(rp).only("only permutations satisfy the constraints", &closed);
            st(one_input).all("the sequence from one and one satisfies the constraints", &|s, t| {
                let mut v = recurrence(t);
                v.extend(product(s, t));
                v.extend([t[0][0] - FE::one(), t[0][1] - FE::one(), t[2][n - 1] - FE::one()]);
                v
            });
            st(rp).all("the sequence from any public inputs satisfies the constraints", &|s, t| {
                let mut v = recurrence(t);
                v.extend(product(s, t));
                v.extend(start(s, t));
                v.push(t[2][n - 1] - FE::one());
                v
            });
            let rap: Conds = &|s, t| {
                let mut v: Vec<FE> = (0..steps).map(|i| t[0][i] - closed_form(s("a0"), s("a1"), i)).collect();
                v.extend(product(s, t));
                v.extend(closed(s, t));
                v
            };
            let rap_ones: Conds = &|s, t| {
                let mut v: Vec<FE> = (0..steps).map(|i| t[0][i] - closed_form(FE::one(), FE::one(), i)).collect();
                v.extend(product(s, t));
                v.extend(closed(s, t));
                v
            };
            if (steps + 1).next_power_of_two() == n {
                generator::<FibonacciRAP<F>>(&format!("{} from one and one", name), &|_| fibonacci_rap_trace([FE::one(), FE::one()], steps), one_input, gamma, rap_ones, n, &|| {
                    (0..steps).map(|i| closed_form(FE::one(), FE::one(), i) + engine::s("gamma")).chain([engine::s("gamma")]).collect()
                });
                generator::<FibonacciRAP<F>>(&format!("{} from any initial values", name), &|s| fibonacci_rap_trace([s("a0"), s("a1")], steps), rp, gamma, rap, n, &|| {
                    (0..steps).map(|i| closed_form(engine::s("a0"), engine::s("a1"), i) + engine::s("gamma")).chain([engine::s("gamma")]).collect()
                });
            }
        }
    }
    report::finish()
}
