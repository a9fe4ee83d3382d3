//! Prior and between residuals, directly, through Values and differentiated.
use crate::vars::*;
use factrs::{containers::*, linalg::*, residuals::*, traits::*, variables::*};
pub type J = (Vec<f64>, (usize, usize), Vec<f64>);
pub fn v(x: VectorX) -> Vec<f64> { x.iter().cloned().collect() }
pub fn j(d: DiffResult<VectorX, MatrixX>) -> J { let s = d.diff.shape(); (v(d.value), s, d.diff.iter().cloned().collect()) }
macro_rules! resid { ($($m:ident $T:ty, $N:literal);* $(;)?) => {$(pub mod $m { use super::*;
    type T = $T;
    type P = <T as Co>::P;
    fn vals(a: P, b: P) -> Values {
        let mut x = Values::new();
        x.insert_unchecked(Key(11), T::mk(a));
        x.insert_unchecked(Key(10), T::mk(b));
        x
    }
    pub fn prior(p: P, a: P) -> Vec<f64> { v(PriorResidual::new(T::mk(p)).residual1::<f64>(T::mk(a))) }
    pub fn prior_ref(p: P, a: P) -> Vec<f64> { v(T::mk(p).ominus(&T::mk(a))) }
    pub fn prior_values(p: P, a: P, b: P) -> Vec<f64> { v(PriorResidual::new(T::mk(p)).residual(&vals(a, b), &[Key(11)])) }
    pub fn prior_jac(p: P, a: P, b: P) -> J { j(PriorResidual::new(T::mk(p)).residual_jacobian(&vals(a, b), &[Key(11)])) }
    pub fn prior_jac_ref(p: P, a: P) -> J {
        let z = T::mk(p);
        j(ForwardProp::<Const<$N>>::jacobian_1(|x: <T as Variable>::Alias<DualVector<Const<$N>>>| T::dual_convert::<DualVector<Const<$N>>>(&z).ominus(&x), &T::mk(a)))
    }
    pub fn between(p: P, a: P, b: P) -> Vec<f64> { v(BetweenResidual::new(T::mk(p)).residual2::<f64>(T::mk(a), T::mk(b))) }
    pub fn between_ref(p: P, a: P, b: P) -> Vec<f64> { v(T::mk(a).compose(&T::mk(p)).ominus(&T::mk(b))) }
    pub fn between_values(p: P, a: P, b: P) -> Vec<f64> { v(BetweenResidual::new(T::mk(p)).residual(&vals(a, b), &[Key(11), Key(10)])) }
    pub fn between_jac(p: P, a: P, b: P) -> J { j(BetweenResidual::new(T::mk(p)).residual_jacobian(&vals(a, b), &[Key(11), Key(10)])) }
    pub fn between_jac_ref(p: P, a: P, b: P) -> J {
        type D = DualVector<Const<{ 2 * $N }>>;
        let z = T::mk(p);
        j(ForwardProp::<Const<{ 2 * $N }>>::jacobian_2(|x: <T as Variable>::Alias<D>, y: <T as Variable>::Alias<D>| x.compose(&T::dual_convert::<D>(&z)).ominus(&y), &T::mk(a), &T::mk(b)))
    }
    pub fn dims(p: P) -> [usize; 4] {
        let (r, s) = (PriorResidual::new(T::mk(p)), BetweenResidual::new(T::identity()));
        [r.dim_in(), r.dim_out(), s.dim_in(), s.dim_out()]
    }
})*}; }
resid!(so2 SO2, 1; so3 SO3, 3; se2 SE2, 3; se3 SE3, 6; v1 VectorVar<1>, 1; v2 VectorVar<2>, 2; v3 VectorVar<3>, 3; v4 VectorVar<4>, 4; v5 VectorVar<5>, 5; v6 VectorVar<6>, 6; bias ImuBias, 6; uvar UVar, 2);
