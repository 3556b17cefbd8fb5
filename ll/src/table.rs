//! C16: cells of tables and frames at arbitrary positions.
use crate::inputs::*;
use lambdaworks_stark::starks::{frame::Frame, trace::TraceTable};
use nd::{any, assume, reach};

crate::harnesses! {
    c16_cells;
    c16_cells_odd;
    c16_frame;
    c16_frame_many;
    c16_frame_long;
    c16_frame_written;
}

fn number(e: &FE) -> u64 {
    e.representative().limbs[3]
}
fn position(below: usize) -> usize {
    let at: usize = any();
    assume(at < below);
    at
}
/// Cell (row, column) holds 10 * row + column + 1.
fn cell(row: usize, col: usize) -> u64 {
    (10 * row + col + 1) as u64
}
fn table(rows: usize, cols: usize, by_columns: bool) -> TraceTable<F> {
    if by_columns {
        TraceTable::new_from_cols(&list_of(cols, |j| list_of(rows, |i| FE::from(cell(i, j)))))
    } else {
        TraceTable::new(list_of(rows * cols, |k| FE::from(cell(k / cols, k % cols))), cols)
    }
}
fn list_of<T>(n: usize, f: impl Fn(usize) -> T) -> Vec<T> {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(f(i));
    }
    v
}

fn cells(rows: usize, cols: usize) {
    let t = table(rows, cols, any::<u8>() & 1 == 1);
    let (i, j) = (position(rows), position(cols));
    assert!(number(&t.get(i, j)) == cell(i, j), "a single cell");
    let r = t.get_row(i);
    assert!(r.len() == cols && number(&r[j]) == cell(i, j), "a cell of a row");
    let last = t.last_row();
    assert!(last.len() == cols && number(&last[j]) == cell(rows - 1, j), "a cell of the last row");
    let k = position(cols);
    let s = t.get_cols(&[k, j, k]);
    assert!(s.n_cols == 3 && s.n_rows() == rows, "dimensions of a sub-table");
    assert!(number(&s.get(i, 0)) == cell(i, k) && number(&s.get(i, 1)) == cell(i, j) && number(&s.get(i, 2)) == cell(i, k), "a cell of a sub-table");
    reach!(i + 1 == rows && j + 1 == cols && k == 0, "the last cell is read");
}
pub fn c16_cells() {
    cells(4, 3)
}
pub fn c16_cells_odd() {
    cells(3, 4)
}

/// The rows of a frame at any step, blowup factor and offsets.
fn frames(rows: usize, cols: usize, offsets: usize, high: u64) {
    let t = table(rows, cols, true);
    let (step, blowup): (u64, u8) = (any(), any());
    assume(step < high);
    let o = list_of(offsets, |_| any::<u64>());
    for x in &o {
        assume(*x < high);
    }
    let o: Vec<usize> = list_of(offsets, |i| o[i] as usize);
    let f = Frame::read_from_trace(&t, step as usize, blowup, &o);
    assert!(f.num_rows() == offsets && f.num_columns() == cols, "dimensions of the frame");
    for k in 0..offsets {
        let at = (step as usize + o[k] * blowup as usize) % rows;
        for j in 0..cols {
            assert!(number(&f.get_row(k)[j]) == cell(at, j), "a cell of the frame");
        }
    }
    reach!(blowup == 128 && o[0] == 2 && step as usize == rows - 1, "a wide blowup factor");
    reach!(blowup == 3, "a blowup factor that is no power of two");
}
pub fn c16_frame() {
    frames(8, 2, 1, 1 << 40)
}
pub fn c16_frame_many() {
    frames(4, 1, 2, 1 << 40)
}
/// Tables longer than any of the numbers that meet in the position of a row.
pub fn c16_frame_long() {
    let rows = 1024;
    let t = TraceTable::<F>::new(list_of(rows, |k| FE::from(cell(k, 0))), 1);
    let (step, blowup, offset): (u64, u8, u64) = (any(), any(), any());
    assume((step < 2) | (step >= 1022 && step < 1024));
    assume(blowup & blowup.wrapping_sub(1) == 0);
    assume(offset < 4);
    let f = Frame::read_from_trace(&t, step as usize, blowup, &[offset as usize]);
    let at = (step as usize + offset as usize * blowup as usize) % rows;
    assert!(f.num_rows() == 1 && number(&f.get_row(0)[0]) == cell(at, 0), "a row of the frame");
    reach!(blowup == 128 && offset == 3 && step == 1023, "the widest blowup factor");
}
/// Writing to a row of a frame changes that row.
pub fn c16_frame_written() {
    let mut f = Frame::<F>::new(list_of(6, |k| FE::from(cell(k / 2, k % 2))), 2);
    let (i, j) = (position(3), position(2));
    f.get_row_mut(i)[j] = FE::from(99u64);
    let (a, b) = (position(3), position(2));
    let want = if a == i && b == j { 99 } else { cell(a, b) };
    assert!(number(&f.get_row(a)[b]) == want, "a cell of a written frame");
    reach!(a == i && b == j && i == 2 && j == 1, "the written cell is read");
}
