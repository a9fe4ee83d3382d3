//! Keys and symbols.
use factrs::{assign_symbols, containers::*, variables::*};
pub fn key(c: char, i: u64) -> u64 { Key::from(DefaultSymbol::new(c, i)).0 }
pub fn back(c: char, i: u64) -> DefaultSymbol { DefaultSymbol::from(Key::from(DefaultSymbol::new(c, i))) }
pub fn sym(c: char, i: u64) -> DefaultSymbol { DefaultSymbol::new(c, i) }
pub fn again(c: char, i: u64) -> u64 { Key::from(DefaultSymbol::from(Key::from(DefaultSymbol::new(c, i)))).0 }
pub mod own {
    use super::*;
    assign_symbols!(Apple: SO2; Zed: SE3, SO3; Mid: VectorVar2);
    assign_symbols!(Landmark);
    assign_symbols!(Été: SO2);
}
macro_rules! all { ($($m:ident $S:expr),* $(,)?) => {$(
    pub fn $m(i: u64) -> (DefaultSymbol, u64) { (DefaultSymbol::from($S(i)), { let k: Key = $S(i).into(); k.0 }) }
)*}; }
all!(apple own::Apple, zed own::Zed, mid own::Mid, landmark own::Landmark, ete own::Été);
all!(l_a factrs::symbols::A, l_b factrs::symbols::B, l_c factrs::symbols::C, l_d factrs::symbols::D, l_e factrs::symbols::E, l_f factrs::symbols::F, l_g factrs::symbols::G, l_h factrs::symbols::H, l_i factrs::symbols::I, l_j factrs::symbols::J, l_k factrs::symbols::K, l_l factrs::symbols::L, l_m factrs::symbols::M, l_n factrs::symbols::N, l_o factrs::symbols::O, l_p factrs::symbols::P, l_q factrs::symbols::Q, l_r factrs::symbols::R, l_s factrs::symbols::S, l_t factrs::symbols::T, l_u factrs::symbols::U, l_v factrs::symbols::V, l_w factrs::symbols::W, l_x factrs::symbols::X, l_y factrs::symbols::Y, l_z factrs::symbols::Z);
