use ruler::BV;
use serde::{Deserialize, Deserializer};

// ---- fixed-width values -------------------------------------------------------------------------
pub fn BV__new<const N: u128>(n: impl Into<u128>) -> BV<N> {
    BV(n.into() & BV::<N>::ALL_ONES.0)
}
pub fn BV__wrapping_add<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    BV(a.0.wrapping_add(b.0) & BV::<N>::ALL_ONES.0)
}
pub fn BV__wrapping_sub<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    BV(a.0.wrapping_sub(b.0) & BV::<N>::ALL_ONES.0)
}
pub fn BV__wrapping_mul<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    BV(a.0.wrapping_mul(b.0) & BV::<N>::ALL_ONES.0)
}
pub fn BV__wrapping_neg<const N: u128>(a: BV<N>) -> BV<N> {
    BV(a.0.wrapping_neg() & BV::<N>::ALL_ONES.0)
}
pub fn BV__my_shl<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    if b.0 < N {
        BV((a.0 << b.0) & BV::<N>::ALL_ONES.0)
    } else {
        BV(0)
    }
}
pub fn BV__my_shr<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    if b.0 < N {
        BV((a.0 >> b.0) & BV::<N>::ALL_ONES.0)
    } else {
        BV(0)
    }
}
pub fn BV__not<const N: u128>(a: BV<N>) -> BV<N> {
    BV(!a.0 & BV::<N>::ALL_ONES.0)
}
pub fn BV__bitand<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    BV((a.0 & b.0) & BV::<N>::ALL_ONES.0)
}
pub fn BV__bitor<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    BV((a.0 | b.0) & BV::<N>::ALL_ONES.0)
}
pub fn BV__bitxor<const N: u128>(a: BV<N>, b: BV<N>) -> BV<N> {
    BV((a.0 ^ b.0) & BV::<N>::ALL_ONES.0)
}
pub fn BV__from<const N: u128>(v: u128) -> BV<N> {
    BV(v & BV::<N>::ALL_ONES.0)
}
pub fn BV__fmt<const N: u128>(a: &BV<N>, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    std::fmt::Display::fmt(&a.0, f)
}
pub fn BV__from_str<const N: u128>(s: &str) -> Result<BV<N>, std::num::ParseIntError> {
    match s.strip_prefix("#b") {
        Some(digits) => match u128::from_str_radix(digits, 2) {
            Ok(i) => Ok(BV(i & BV::<N>::ALL_ONES.0)),
            Err(e) => Err(e),
        },
        None => match s.parse::<u128>() {
            Ok(i) => Ok(BV(i & BV::<N>::ALL_ONES.0)),
            Err(e) => Err(e),
        },
    }
}
pub fn BV__deserialize<'de, const N: u128, D: Deserializer<'de>>(d: D) -> Result<BV<N>, D::Error> {
    match u128::deserialize(d) {
        Ok(i) => Ok(BV(i & BV::<N>::ALL_ONES.0)),
        Err(e) => Err(e),
    }
}
