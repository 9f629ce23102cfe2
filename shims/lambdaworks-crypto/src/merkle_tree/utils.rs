pub fn sibling_index(i: usize) -> usize {
    if i % 2 == 0 {
        i - 1
    } else {
        i + 1
    }
}
pub fn parent_index(i: usize) -> usize {
    if i % 2 == 0 {
        (i - 1) / 2
    } else {
        i / 2
    }
}
/// Pads with copies of the last element up to a power of two.
pub fn complete_until_power_of_two<T: Clone>(mut values: Vec<T>) -> Vec<T> {
    if let Some(last) = values.last().cloned() {
        let n = values.len().next_power_of_two();
        values.resize(n, last);
    }
    values
}
