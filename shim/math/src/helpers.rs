use crate::field::{element::FieldElement, traits::IsField};

pub fn next_power_of_two(n: u64) -> u64 {
    if n <= 1 { 1 } else { n.next_power_of_two() }
}

/// Pads every column up to the next power of two by repeating its last element.
pub fn resize_to_next_power_of_two<F: IsField>(trace_colums: &mut [Vec<FieldElement<F>>]) {
    trace_colums.iter_mut().for_each(|col| {
        let col_len = col.len() as u64;
        let next = next_power_of_two(col_len) as usize;
        if let Some(last) = col.last().cloned() {
            col.resize(next, last);
        } else {
            col.resize(next, FieldElement::zero());
        }
    })
}

#[inline(always)]
pub fn eight(b: &[u8]) -> [u8; 8] {
    #[cfg(ll)]
    return b.try_into().unwrap();
    #[cfg(not(ll))]
    [b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]
}
