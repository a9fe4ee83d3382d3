//! Robust kernels.
use factrs::{robust::*, traits::*};
macro_rules! plain { ($($m:ident $T:ident),*) => {$(pub mod $m { use super::*;
    pub fn loss(d2: f64, _c: f64) -> f64 { $T.loss(d2) }
    pub fn weight(d2: f64, _c: f64) -> f64 { $T.weight(d2) }
    pub fn default_loss(d2: f64) -> f64 { $T::default().loss(d2) }
    pub fn default_weight(d2: f64) -> f64 { $T::default().weight(d2) }
    pub fn dyn_both(d2: f64, _c: f64) -> [f64; 2] { let r: Box<dyn RobustCost> = Box::new($T); [r.loss(d2), r.weight(d2)] }
})*}; }
macro_rules! param { ($($m:ident $T:ident),*) => {$(pub mod $m { use super::*;
    pub fn loss(d2: f64, c: f64) -> f64 { $T::new(c).loss(d2) }
    pub fn weight(d2: f64, c: f64) -> f64 { $T::new(c).weight(d2) }
    pub fn default_loss(d2: f64) -> f64 { $T::default().loss(d2) }
    pub fn default_weight(d2: f64) -> f64 { $T::default().weight(d2) }
    pub fn dyn_both(d2: f64, c: f64) -> [f64; 2] { let r: Box<dyn RobustCost> = Box::new($T::new(c).clone()); [r.loss(d2), r.weight(d2)] }
})*}; }
plain!(l2 L2, l1 L1);
param!(huber Huber, fair Fair, cauchy Cauchy, geman GemanMcClure, welsch Welsch, tukey Tukey);
