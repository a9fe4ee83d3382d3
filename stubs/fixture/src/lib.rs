//! Every shape of impl the marking attribute accepts, expanded (never type-checked or run).
#![allow(warnings)]
extern crate self as factrs;
use factrs_proc::mark;
pub mod noise {
    pub trait NoiseModel { type Dim; }
    #[macro_export]
    macro_rules! fixture_tag_noise { ($t:ty) => { const _: () = { fn __typetag_tag() { typetag::__private::impl_of("tag_noise", stringify!($t), 0usize); } }; } }
    pub use fixture_tag_noise as tag_noise;
}
pub mod user {
    use factrs_proc::mark;
    pub struct PlainNoise;
    #[mark]
    impl NoiseModel for PlainNoise { type Dim = Const<2>; }
    pub struct SizedNoise<const N: usize>;
    #[mark]
    impl<const N: usize> factrs::noise::NoiseModel for SizedNoise<N> { type Dim = Const<N>; }
    pub struct MyKernel;
    #[mark]
    impl RobustCost for MyKernel {}
    pub struct Plane<T>(T);
    #[mark]
    impl<T: Numeric> Variable<T> for Plane<T> {}
    pub struct Spline<const N: usize, T>(T);
    #[mark]
    impl<const N: usize, T: Numeric> factrs::traits::Variable<T> for Spline<N, T> {}
    pub struct Pose10<T>(T);
    #[mark]
    impl<T: Numeric> Variable<T> for Pose10<T> {}
    pub struct Curve_0<const M: usize, T>(T);
    #[mark]
    impl<const M: usize, T: Numeric> Variable<T> for Curve_0<M, T> {}
    pub struct Noise20<const DIM: usize>;
    #[mark]
    impl<const DIM: usize> NoiseModel for Noise20<DIM> { type Dim = Const<DIM>; }
    pub struct Six0;
    #[mark]
    impl Residual6 for Six0 {}
    pub struct Range;
    #[mark]
    impl Residual1 for Range {}
    pub struct Bearing<P>(P);
    #[mark]
    impl<P: VariableUmbrella + 'static> factrs::residuals::Residual2 for Bearing<P> {}
}
