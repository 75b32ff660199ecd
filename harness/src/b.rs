//! Building documents.
use crate::refimpl::json::*;
use crate::sym;
pub fn o(es: &[(&str, J)]) -> J {
    J::Obj(es.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}
pub fn a(es: &[J]) -> J {
    J::Arr(es.to_vec())
}
pub fn t(x: &str) -> J {
    J::Str(x.to_string())
}
pub fn n(x: &str) -> J {
    J::Num(x.to_string())
}
pub const T: J = J::Bool(true);
pub const F: J = J::Bool(false);
pub const N: J = J::Null;
/// One of the given values.
pub fn pick<X: Clone>(v: &[X]) -> X {
    v[sym::choice(v.len())].clone()
}
/// Concatenates entries, dropping an absent one.
pub fn opt(j: &mut J, k: &str, v: Option<J>) {
    if let (J::Obj(x), Some(v)) = (j, v) {
        x.push((k.to_string(), v))
    }
}
/// A string with symbolic bytes where the pattern has `?`, taken from `set`.
pub fn sy(pat: &str, set: &[u8]) -> String {
    let mut s = String::new();
    for c in pat.bytes() {
        if c == b'?' {
            s.push(sym::byte_in(set) as char)
        } else {
            s.push(c as char)
        }
    }
    s
}
