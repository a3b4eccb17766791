//! Small prime fields with small curves, instantiated from the library's own macros, as circuit drivers: the gadgets
//! under test are generic, and over these fields the specification can try every assignment.
#[macro_export]
macro_rules! toy_driver {
    ($m:ident, $p:expr, $inv:expr, $r:expr, $r2:expr, $r3:expr, $gen:expr, $b:expr, $gx:expr, $gy:expr, $bits:expr) => {
        pub mod $m {
            use ::core::borrow::Borrow;
            use ::core::iter::{Product, Sum};
            use zkstd::arithmetic::bits_256::*;
            use zkstd::arithmetic::weierstrass::*;
            use zkstd::common::*;
            use zkstd::macros::curve::weierstrass::*;
            use zkstd::macros::field::*;
            pub const MODULUS: [u64; 4] = [$p, 0, 0, 0];
            const GENERATOR: [u64; 4] = [$gen, 0, 0, 0];
            pub const MULTIPLICATIVE_GENERATOR: F = F::to_mont_form(GENERATOR);
            const R: [u64; 4] = [$r, 0, 0, 0];
            const R2: [u64; 4] = [$r2, 0, 0, 0];
            const R3: [u64; 4] = [$r3, 0, 0, 0];
            pub const INV: u64 = $inv;
            pub const S: usize = 1;
            pub const ROOT_OF_UNITY: F = F::to_mont_form([$p - 1, 0, 0, 0]);
            #[derive(Clone, Copy, Decode, Encode, Serialize, Deserialize)]
            pub struct F(pub [u64; 4]);
            impl SigUtils<32> for F {
                fn to_bytes(self) -> [u8; Self::LENGTH] {
                    let mut res = [0; Self::LENGTH];
                    res[0..8].copy_from_slice(&self.montgomery_reduce()[0].to_le_bytes());
                    res
                }
                fn from_bytes(bytes: [u8; Self::LENGTH]) -> Option<Self> {
                    let v = u64::from_le_bytes(bytes[0..8].try_into().unwrap());
                    if v < $p { Some(Self::to_mont_form([v, 0, 0, 0])) } else { None }
                }
            }
            impl F {
                pub const fn to_mont_form(val: [u64; 4]) -> Self { Self(to_mont_form(val, R2, MODULUS, INV)) }
                pub const fn montgomery_reduce(self) -> [u64; 4] { mont([self.0[0], self.0[1], self.0[2], self.0[3], 0, 0, 0, 0], MODULUS, INV) }
            }
            impl<'a, 'b> BitXor<&'b F> for &'a F { type Output = F; fn bitxor(self, _: &'b F) -> F { unimplemented!() } }
            impl BitXor<F> for F { type Output = F; fn bitxor(self, _: F) -> F { unimplemented!() } }
            impl<'a, 'b> BitAnd<&'b F> for &'a F { type Output = F; fn bitand(self, _: &'b F) -> F { unimplemented!() } }
            impl BitAnd<F> for F { type Output = F; fn bitand(self, _: F) -> F { unimplemented!() } }
            impl<T: Borrow<F>> Product<T> for F { fn product<I: Iterator<Item = T>>(iter: I) -> Self { iter.fold(Self::one(), |acc, item| acc * *item.borrow()) } }
            impl<T: Borrow<F>> Sum<T> for F { fn sum<I: Iterator<Item = T>>(iter: I) -> Self { iter.fold(Self::zero(), |acc, item| acc + *item.borrow()) } }
            fft_field_operation!(F, MODULUS, GENERATOR, MULTIPLICATIVE_GENERATOR, INV, ROOT_OF_UNITY, R, R2, R3, S);

            #[derive(Debug, Clone, Copy, Decode, Encode)]
            pub struct Affine { pub x: F, pub y: F, is_infinity: bool }
            #[derive(Debug, Clone, Copy, Decode, Encode)]
            pub struct Projective { pub x: F, pub y: F, pub z: F }
            impl Add for Affine { type Output = Projective; fn add(self, rhs: Affine) -> Projective { add_affine_point(self, rhs) } }
            impl Neg for Affine { type Output = Self; fn neg(self) -> Self { Self { x: self.x, y: -self.y, is_infinity: self.is_infinity } } }
            impl Sub for Affine { type Output = Projective; fn sub(self, rhs: Affine) -> Projective { add_affine_point(self, rhs.neg()) } }
            impl Mul<F> for Affine { type Output = Projective; fn mul(self, rhs: F) -> Projective { scalar_point(self.to_extended(), &rhs) } }
            impl Mul<Affine> for F { type Output = Projective; fn mul(self, rhs: Affine) -> Projective { scalar_point(rhs.to_extended(), &self) } }
            impl Add for Projective { type Output = Self; fn add(self, rhs: Projective) -> Self { add_projective_point(self, rhs) } }
            impl Neg for Projective { type Output = Self; fn neg(self) -> Self { Self { x: self.x, y: -self.y, z: self.z } } }
            impl Sub for Projective { type Output = Self; fn sub(self, rhs: Projective) -> Self { add_projective_point(self, -rhs) } }
            impl Mul<F> for Projective { type Output = Projective; fn mul(self, rhs: F) -> Projective { scalar_point(self, &rhs) } }
            impl Mul<Projective> for F { type Output = Projective; fn mul(self, rhs: Projective) -> Projective { scalar_point(rhs, &self) } }
            impl<T: Borrow<Projective>> Sum<T> for Projective { fn sum<I: Iterator<Item = T>>(iter: I) -> Self { iter.fold(Self::ADDITIVE_IDENTITY, |acc, item| acc + *item.borrow()) } }
            const GENERATOR_X: F = F::to_mont_form([$gx, 0, 0, 0]);
            const GENERATOR_Y: F = F::to_mont_form([$gy, 0, 0, 0]);
            const PARAM_B: F = F::to_mont_form([$b, 0, 0, 0]);
            const PARAM_B3: F = F::to_mont_form([3 * $b % $p, 0, 0, 0]);
            weierstrass_curve_operation!(F, F, PARAM_B, PARAM_B3, Affine, Projective, GENERATOR_X, GENERATOR_Y);

            #[derive(Clone, Debug, Default, PartialEq, Eq, Decode, Encode)]
            pub struct D;
            impl zkstd::circuit::CircuitDriver for D {
                const ORDER_STR: &'static str = "";
                const NUM_BITS: u16 = $bits;
                type Affine = Affine;
                type Base = F;
                type Scalar = F;
                fn b3() -> F { PARAM_B3 }
            }
            impl crate::lite::Drv for D { fn p() -> num_bigint::BigUint { num_bigint::BigUint::from($p as u64) } }
        }
    };
}
