//! Plain-Rust reference bodies for std functions whose real bodies use raw
//! pointers; the driver instantiates them in place of the originals.

/// `Vec<T>: FromIterator` / `Extend`.
pub fn vp_stub_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vp_stub_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn vp_stub_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn vp_stub_extend_from_slice<T: Clone>(v: &mut Vec<T>, s: &[T]) {
    for x in s {
        v.push(x.clone());
    }
}
pub fn vp_stub_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old {
        if f(&x) {
            v.push(x);
        }
    }
}
