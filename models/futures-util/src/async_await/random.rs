/// MODEL: the order in which `select!` polls its branches. As written by
/// default, or the reverse; a harness may allow a number of deviations, which
/// the solver places at any `select!` and makes any rotation.
#[doc(hidden)]
pub fn shuffle<T>(slice: &mut [T]) {
    if nsx::mode(nsx::SELECT_REVERSE) {
        slice.reverse();
    }
    if nsx::deviate() {
        let n = nsx::choose(slice.len());
        if n > 0 {
            nsx::deviated();
            slice.rotate_left(n);
        }
    }
}
