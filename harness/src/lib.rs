#![allow(dead_code, unused_imports, unused_variables, clippy::all)]
pub mod unk;
#[cfg(feature = "vars")]
pub mod vars;
#[cfg(feature = "diff")]
pub mod diff;
#[cfg(feature = "robust")]
pub mod robust;
#[cfg(feature = "noise")]
pub mod noise;
#[cfg(feature = "resid")]
pub mod resid;
#[cfg(feature = "sym")]
pub mod sym;
#[cfg(feature = "factor")]
pub mod factor;
#[cfg(feature = "cont")]
pub mod cont;
#[cfg(feature = "linear")]
pub mod linear;
#[cfg(feature = "opt")]
pub mod opt;
#[cfg(feature = "imu")]
pub mod imu;
#[cfg(feature = "g2o")]
pub mod g2o;
#[cfg(feature = "st")]
pub mod st;
