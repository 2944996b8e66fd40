//! Conversions between the harness's affine points and the code's representations.
use crate::alpha::*;
use crate::refm::*;
use crate::*;
use plonky::*;

pub fn crv<C: Cx>() -> Crv where C::BaseField: Fx, C::ScalarField: Fx { Crv { p: C::BaseField::order(), a: C::A.val(), b: C::B.val() } }
pub fn aff<C: Cx>(q: &Pt) -> AffinePoint<C> where C::BaseField: Fx, C::ScalarField: Fx {
    match q { None => AffinePoint::ZERO, Some((x, y)) => AffinePoint { x: C::BaseField::of(x), y: C::BaseField::of(y), zero: false } }
}
pub fn affs<C: Cx>(q: &Pt) -> Vec<AffinePoint<C>> where C::BaseField: Fx, C::ScalarField: Fx {
    match q {
        None => vec![AffinePoint::ZERO, AffinePoint { x: C::GENERATOR_AFFINE.x, y: C::GENERATOR_AFFINE.y, zero: true }],
        _ => vec![aff(q)],
    }
}
pub fn projs<C: Cx>(q: &Pt) -> Vec<ProjectivePoint<C>> where C::BaseField: Fx, C::ScalarField: Fx {
    let p = C::BaseField::order();
    match q {
        None => vec![ProjectivePoint::ZERO, AffinePoint::<C>::ZERO.to_projective(),
            ProjectivePoint { x: C::GENERATOR_AFFINE.x, y: C::GENERATOR_AFFINE.y, z: C::BaseField::TWO, zero: true }],
        Some((x, y)) => [b(1), b(2), &p - 1u32, generic::<C::BaseField>(7).val(), inv(y, &p) + 0u32].iter().filter(|z| *z != &b(0))
            .map(|z| ProjectivePoint { x: C::BaseField::of(&mul(x, z, &p)), y: C::BaseField::of(&mul(y, z, &p)), z: C::BaseField::of(z), zero: false }).collect(),
    }
}
pub fn of_aff<C: Cx>(q: &AffinePoint<C>) -> Result<Pt, String> where C::BaseField: Fx, C::ScalarField: Fx {
    if q.zero { return Ok(None); }
    ensure!(q.x.reduced() && q.y.reduced(), "unreduced coordinates");
    let r = Some((q.x.val(), q.y.val()));
    ensure!(crv::<C>().on(&r), "result is not on the curve");
    Ok(r)
}
pub fn of_proj<C: Cx>(q: &ProjectivePoint<C>) -> Result<Pt, String> where C::BaseField: Fx, C::ScalarField: Fx {
    if q.zero { return Ok(None); }
    ensure!(q.x.reduced() && q.y.reduced() && q.z.reduced(), "unreduced coordinates");
    let p = C::BaseField::order();
    ensure!(q.z.val() != b(0), "finite point with z = 0");
    let zi = inv(&q.z.val(), &p);
    let r = Some((mul(&q.x.val(), &zi, &p), mul(&q.y.val(), &zi, &p)));
    ensure!(crv::<C>().on(&r), "result is not on the curve");
    Ok(r)
}
pub fn sp<C: Cx>(r: &ProjectivePoint<C>, want: &Pt, what: &dyn Fn() -> String) -> R where C::BaseField: Fx, C::ScalarField: Fx {
    let g = of_proj(r).map_err(|e| format!("{} {}: {}", C::CNAME, what(), e))?;
    ensure!(&g == want, "{} {}: got {:?}, expected {:?}", C::CNAME, what(), g, want); Ok(())
}
pub fn sa<C: Cx>(r: &AffinePoint<C>, want: &Pt, what: &dyn Fn() -> String) -> R where C::BaseField: Fx, C::ScalarField: Fx {
    let g = of_aff(r).map_err(|e| format!("{} {}: {}", C::CNAME, what(), e))?;
    ensure!(&g == want, "{} {}: got {:?}, expected {:?}", C::CNAME, what(), g, want); Ok(())
}

