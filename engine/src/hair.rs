//! The harness AIRs: one AIR type whose shape (columns, offsets, degrees, constraints) is chosen by
//! `set_shape`. The default shape has two main and two auxiliary columns, four transition
//! constraints of degrees 1, 2, 3 and 1 with exemptions 2, 1, 1 and 0, and boundary constraints in
//! both segments.
use crate::{F, FE};
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::starks::{
    constraints::boundary::{BoundaryConstraint, BoundaryConstraints},
    context::AirContext,
    frame::Frame,
    proof::options::ProofOptions,
    trace::TraceTable,
    traits::AIR,
    transcript::transcript_to_field,
};

#[derive(Clone, Debug)]
pub struct HPub {
    pub a: FE,
    pub b: FE,
    pub c: FE,
}
type Rows = Vec<Vec<FE>>;
#[derive(Clone, Copy)]
pub struct Shape {
    pub name: &'static str,
    pub cols: usize,
    pub aux: usize,
    /// number of challenges the AIR draws
    pub rap: usize,
    pub offsets: &'static [usize],
    pub degrees: &'static [usize],
    pub exempt: &'static [usize],
    /// degree bound of the composition polynomial, as a multiple of the trace length
    pub bound: usize,
    /// constraints on the frame's rows
    pub transition: fn(&[Vec<FE>], &[FE]) -> Vec<FE>,
    /// (column, row, value) for a trace of the given length
    pub boundary: fn(usize, &HPub, &[FE]) -> Vec<(usize, usize, FE)>,
    pub main: fn(usize, &HPub) -> Rows,
    pub auxiliary: fn(&[Vec<FE>], &[FE]) -> Rows,
}
fn col(n: usize, first: &[FE], next: impl Fn(&[FE], usize) -> FE) -> Vec<FE> {
    let mut v = first.to_vec();
    while v.len() < n {
        let x = next(&v, v.len());
        v.push(x);
    }
    v.truncate(n);
    v
}
/// The default.
pub const MIXED: Shape = Shape {
    name: "mixed",
    cols: 4,
    aux: 2,
    rap: 1,
    offsets: &[0, 1, 2],
    degrees: &[1, 2, 3, 1],
    exempt: &[2, 1, 1, 0],
    bound: 2,
    transition: |f, g| {
        vec![
            f[2][0] - f[1][0] - f[0][1],
            f[1][1] - f[0][0] * f[0][0],
            f[1][2] - f[0][2] * (f[0][0] + g[0]) * f[0][1],
            f[0][3] - f[0][0] - g[0] * f[0][1],
        ]
    },
    boundary: |_, p, _| vec![(0, 0, p.a), (0, 1, p.b), (1, 0, p.c), (2, 0, FE::one()), (1, 1, p.a * p.a)],
    main: |n, p| {
        let mut x = vec![p.a, p.b];
        let mut y = vec![p.c];
        for i in 0..n {
            if i + 1 < n {
                y.push(x[i] * x[i]);
            }
            if i + 2 < n {
                x.push(x[i + 1] + y[i]);
            }
        }
        x.truncate(n);
        vec![x, y]
    },
    auxiliary: |c, g| {
        let n = c[0].len();
        let w = col(n, &[FE::one()], |w, i| w[i - 1] * (c[0][i - 1] + g[0]) * c[1][i - 1]);
        vec![w, (0..n).map(|i| c[0][i] + g[0] * c[1][i]).collect()]
    },
};
/// Linear constraints only, no auxiliary columns.
pub const LINEAR: Shape = Shape {
    name: "linear",
    cols: 2,
    aux: 0,
    rap: 0,
    offsets: &[0, 1],
    degrees: &[1, 1, 1],
    exempt: &[1, 1, 1],
    bound: 1,
    transition: |f, _| vec![f[1][0] - f[0][0] - f[0][1], f[1][1] - f[1][0] - f[0][1], f[1][1] - f[0][0] - f[0][1] - f[0][1]],
    boundary: |_, p, _| vec![(0, 0, p.a), (1, 0, p.b)],
    main: |n, p| {
        let (mut x, mut y) = (vec![p.a], vec![p.b]);
        for i in 1..n {
            x.push(x[i - 1] + y[i - 1]);
            y.push(x[i] + y[i - 1]);
        }
        vec![x, y]
    },
    auxiliary: |_, _| vec![],
};
/// One column, one linear constraint over three rows.
pub const SINGLE: Shape = Shape {
    name: "single",
    cols: 1,
    aux: 0,
    rap: 0,
    offsets: &[0, 1, 2],
    degrees: &[1],
    exempt: &[2],
    bound: 1,
    transition: |f, _| vec![f[2][0] - f[1][0] - f[0][0]],
    boundary: |_, p, _| vec![(0, 0, p.a), (0, 1, p.b)],
    main: |n, p| vec![col(n, &[p.a, p.b], |v, i| v[i - 1] + v[i - 2])],
    auxiliary: |_, _| vec![],
};
/// One column, one quadratic constraint, a single boundary constraint.
pub const SQUARES: Shape = Shape {
    name: "squares",
    cols: 1,
    aux: 0,
    rap: 0,
    offsets: &[0, 1],
    degrees: &[2],
    exempt: &[1],
    bound: 2,
    transition: |f, _| vec![f[1][0] - f[0][0] * f[0][0]],
    boundary: |_, p, _| vec![(0, 0, p.a)],
    main: |n, p| vec![col(n, &[p.a], |v, i| v[i - 1] * v[i - 1])],
    auxiliary: |_, _| vec![],
};
/// Constraints within a row only; nothing is exempted; a boundary constraint on the last row.
pub const ROWWISE: Shape = Shape {
    name: "row-wise",
    cols: 3,
    aux: 1,
    rap: 1,
    offsets: &[0],
    degrees: &[2, 1],
    exempt: &[0, 0],
    bound: 2,
    transition: |f, g| vec![f[0][1] - f[0][0] * f[0][0], f[0][2] - f[0][0] - g[0] * f[0][1]],
    boundary: |n, p, g| vec![(0, n - 1, p.b), (2, n - 1, p.b + g[0] * p.b * p.b)],
    main: |n, p| {
        let mut x = col(n, &[p.a], |v, _| *v.last().unwrap() + p.c);
        x[n - 1] = p.b;
        vec![x.clone(), x.iter().map(|v| *v * *v).collect()]
    },
    auxiliary: |c, g| vec![(0..c[0].len()).map(|i| c[0][i] + g[0] * c[1][i]).collect()],
};
/// Three main and three auxiliary columns, three challenges of the AIR, as the Cairo AIR has.
pub const WIDE: Shape = Shape {
    name: "wide",
    cols: 6,
    aux: 3,
    rap: 3,
    offsets: &[0, 1],
    degrees: &[1, 2, 2, 1, 2, 1],
    exempt: &[1, 1, 1, 0, 0, 1],
    bound: 2,
    transition: |f, g| {
        vec![
            f[1][0] - f[0][0] - f[0][1],
            f[1][1] - f[0][1] * f[0][2],
            f[1][3] - f[0][3] * (f[0][0] + g[0]),
            f[0][4] - g[1] - f[0][1],
            f[0][5] - g[2] * f[0][0] * f[0][2],
            f[1][2] - f[0][2] - f[0][0],
        ]
    },
    boundary: |_, p, g| vec![(3, 0, g[0]), (4, 0, g[1] + p.b), (0, 0, p.a), (1, 0, p.b), (2, 0, p.c)],
    main: |n, p| {
        let (mut x, mut y, mut z) = (vec![p.a], vec![p.b], vec![p.c]);
        for i in 1..n {
            x.push(x[i - 1] + y[i - 1]);
            y.push(y[i - 1] * z[i - 1]);
            z.push(z[i - 1] + x[i - 1]);
        }
        vec![x, y, z]
    },
    auxiliary: |c, g| {
        let n = c[0].len();
        vec![
            col(n, &[g[0]], |v, i| v[i - 1] * (c[0][i - 1] + g[0])),
            (0..n).map(|i| g[1] + c[1][i]).collect(),
            (0..n).map(|i| g[2] * c[0][i] * c[2][i]).collect(),
        ]
    },
};
/// A constraint over rows that are not next to each other.
pub const GAPPED: Shape = Shape {
    name: "gapped",
    cols: 2,
    aux: 0,
    rap: 0,
    offsets: &[0, 2],
    degrees: &[1, 2],
    exempt: &[2, 2],
    bound: 2,
    transition: |f, _| vec![f[1][0] - f[0][0] - f[0][1], f[1][1] - f[0][0] * f[0][1]],
    boundary: |_, p, _| vec![(0, 0, p.a), (1, 0, p.b), (0, 1, p.c), (1, 1, p.a)],
    main: |n, p| {
        let (mut x, mut y) = (vec![p.a, p.c], vec![p.b, p.a]);
        for i in 2..n {
            x.push(x[i - 2] + y[i - 2]);
            y.push(x[i - 2] * y[i - 2]);
        }
        x.truncate(n);
        y.truncate(n);
        vec![x, y]
    },
    auxiliary: |_, _| vec![],
};
/// As many columns and constraints as the Cairo AIR has.
pub const MANY: Shape = Shape {
    name: "many-column",
    cols: 48,
    aux: 12,
    rap: 3,
    offsets: &[0, 1],
    degrees: &{
        let mut d = [1; 48];
        let mut i = 36;
        while i < 48 {
            d[i] = 2;
            i += 1;
        }
        d
    },
    exempt: &{
        let mut d = [1; 48];
        let mut i = 36;
        while i < 48 {
            d[i] = 0;
            i += 1;
        }
        d
    },
    bound: 2,
    transition: |f, g| {
        let mut v: Vec<FE> = (0..36).map(|j| f[1][j] - f[0][j] - f[0][(j + 1) % 36]).collect();
        v.extend((0..12).map(|k| f[0][36 + k] - f[0][k] * f[0][k + 5] - g[k % 3]));
        v
    },
    boundary: |_, p, g| {
        let start = |j: usize| p.a + p.b * FE::from(j as u64);
        let mut v: Vec<(usize, usize, FE)> = (0..36).map(|j| (j, 0, start(j))).collect();
        v.extend((0..12).map(|k| (36 + k, 0, start(k) * start(k + 5) + g[k % 3])));
        v
    },
    main: |n, p| {
        let mut x: Rows = (0..36).map(|j| vec![p.a + p.b * FE::from(j as u64)]).collect();
        for i in 1..n {
            for j in 0..36 {
                let v = x[j][i - 1] + x[(j + 1) % 36][i - 1];
                x[j].push(v);
            }
        }
        x
    },
    auxiliary: |c, g| (0..12).map(|k| (0..c[0].len()).map(|i| c[k][i] * c[k + 5][i] + g[k % 3]).collect()).collect(),
};
/// Boundary constraints in the middle and at the end of the trace, in no order.
pub const FAR: Shape = Shape {
    name: "far-boundary",
    cols: 2,
    aux: 0,
    rap: 0,
    offsets: &[0, 1],
    degrees: &[1, 1],
    exempt: &[1, 1],
    bound: 1,
    transition: |f, _| vec![f[1][0] - f[0][0] - f[0][1], f[1][1] - f[0][1]],
    boundary: |n, p, _| {
        let at = |i: usize| (0, i, p.a + p.b * FE::from(i as u64));
        vec![at(n - 1), (1, n / 2, p.b), at((n / 2 + 1) % n), at(0), (1, n - 2, p.b)]
    },
    main: |n, p| vec![(0..n).map(|i| p.a + p.b * FE::from(i as u64)).collect(), vec![p.b; n]],
    auxiliary: |_, _| vec![],
};
/// Every shape but the default.
pub const OTHERS: [Shape; 8] = [LINEAR, SINGLE, SQUARES, ROWWISE, WIDE, GAPPED, MANY, FAR];
thread_local! {
    static SHAPE: std::cell::Cell<Shape> = const { std::cell::Cell::new(MIXED) };
    static EX: std::cell::RefCell<Option<Vec<usize>>> = const { std::cell::RefCell::new(None) };
}
pub fn shape() -> Shape {
    SHAPE.with(|s| s.get())
}
pub fn set_shape(s: Shape) {
    EX.with(|e| *e.borrow_mut() = None);
    SHAPE.with(|x| x.set(s))
}
pub fn cols() -> usize {
    shape().cols
}
pub fn aux() -> usize {
    shape().aux
}
pub fn rows() -> usize {
    shape().offsets.len()
}
pub fn nb() -> usize {
    let z = FE::zero();
    (shape().boundary)(4, &HPub { a: z, b: z, c: z }, &vec![z; shape().rap]).len()
}
pub fn nt() -> usize {
    shape().degrees.len()
}
/// Exempted rows of each constraint; some checks vary them.
pub fn exempt() -> Vec<usize> {
    EX.with(|e| e.borrow().clone()).unwrap_or(shape().exempt.to_vec())
}
pub fn set_exempt(v: &[usize]) {
    EX.with(|e| *e.borrow_mut() = Some(v.to_vec()))
}
pub fn reset_exempt() {
    EX.with(|e| *e.borrow_mut() = None)
}
/// Commitments to the trace: the ranges of columns of each.
pub fn segments() -> Vec<std::ops::Range<usize>> {
    let m = cols() - aux();
    if aux() == 0 {
        vec![0..m]
    } else {
        vec![0..m, m..cols()]
    }
}
fn distinct_exemptions() -> usize {
    let mut v: Vec<usize> = exempt().iter().cloned().filter(|x| *x > 0).collect();
    v.sort();
    v.dedup();
    v.len()
}

#[derive(Clone)]
pub struct HAir {
    context: AirContext,
    n: usize,
    p: HPub,
    s: Shape,
}
impl AIR for HAir {
    type Field = F;
    type RAPChallenges = Vec<FE>;
    type PublicInputs = HPub;
    fn new(n: usize, p: &HPub, o: &ProofOptions) -> Self {
        let s = shape();
        HAir {
            context: AirContext {
                proof_options: o.clone(),
                trace_columns: s.cols,
                transition_degrees: s.degrees.to_vec(),
                transition_offsets: s.offsets.to_vec(),
                transition_exemptions: exempt(),
                num_transition_constraints: s.degrees.len(),
                num_transition_exemptions: distinct_exemptions(),
            },
            n,
            p: p.clone(),
            s,
        }
    }
    fn build_auxiliary_trace(&self, t: &TraceTable<F>, g: &Vec<FE>) -> TraceTable<F> {
        if self.s.aux == 0 {
            return TraceTable::empty();
        }
        TraceTable::new_from_cols(&(self.s.auxiliary)(&t.cols(), g))
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> Vec<FE> {
        (0..self.s.rap).map(|_| transcript_to_field(t)).collect()
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.s.aux
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.s.bound * self.n
    }
    fn compute_transition(&self, f: &Frame<F>, g: &Vec<FE>) -> Vec<FE> {
        let r: Rows = (0..self.s.offsets.len()).map(|i| f.get_row(i).to_vec()).collect();
        (self.s.transition)(&r, g)
    }
    fn boundary_constraints(&self, g: &Vec<FE>) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(
            (self.s.boundary)(self.n, &self.p, g).into_iter().map(|(c, r, v)| BoundaryConstraint::new(c, r, v)).collect(),
        )
    }
    fn context(&self) -> &AirContext {
        &self.context
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &HPub {
        &self.p
    }
}
/// The main trace satisfying the AIR.
pub fn main_trace(n: usize, p: &HPub) -> TraceTable<F> {
    TraceTable::new_from_cols(&(shape().main)(n, p))
}
