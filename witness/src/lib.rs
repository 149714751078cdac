#![allow(warnings)]
pub mod bv4 { ruler::impl_bv!(4); }
pub mod bv32 { ruler::impl_bv!(32); }
pub mod bv64 { ruler::impl_bv!(64); }
pub mod bv128 { ruler::impl_bv!(128); }
