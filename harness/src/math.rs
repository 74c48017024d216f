//! pow (C33).
use crate::sym::*;
use cosmwasm_std::{Decimal256, Uint256};

pub fn d256(x: cosmwasm_std::Uint128) -> Decimal256 {
    Decimal256::new(Uint256::from(x))
}
pub fn z256(x: Uint256) -> Z {
    Z::of_le(&x.to_le_bytes())
}
fn zd(x: Decimal256) -> Z {
    z256(x.atomics())
}
fn pow(b: Decimal256, e: Decimal256) -> Option<Z> {
    tx(|| ibcx_math::pow(b, e)).ok().map(zd)
}

/// the edges of the domain
pub fn h_pow_edges() {
    let b = u128_in("base", 0, 3 * ONE);
    let e = u128_in("exp", 0, 3 * ONE);
    match choose("edge", 5) {
        0 => {
            reach("C33.zero_base");
            check(pow(Decimal256::zero(), d256(e)).is_none(), "C33.refuses_base")
        }
        1 => {
            assume(Z::k(2 * ONE).le(Z::u128(b)));
            reach("C33.large_base");
            check(pow(d256(b), d256(e)).is_none(), "C33.refuses_base")
        }
        k => {
            assume(Z::k(1).le(Z::u128(b)) & (Z::u128(b) + Z::k(1)).le(Z::k(2 * ONE)));
            let (base, exp, want) = match k {
                2 => (d256(b), Decimal256::one(), Z::u128(b)),
                3 => (d256(b), Decimal256::zero(), Z::k(ONE)),
                _ => (Decimal256::one(), d256(e), Z::k(ONE)),
            };
            match no_panic("C33.edge_no_panic", || ibcx_math::pow(base, exp)) {
                Ok(r) => {
                    reach("C33.edge");
                    check(zd(r).eq(want), "C33.edge_value")
                }
                Err(_) => check(false, "C33.accepts"),
            }
        }
    }
}
/// integer exponents: at most the exact power, and not less by more than the roundings
fn int(n: u64) {
    let b = u128_in("base", 1, 2 * ONE - 1);
    let zb = Z::u128(b);
    match no_panic("C33.int_no_panic", || ibcx_math::pow(d256(b), Decimal256::from_ratio(n, 1u64))) {
        Ok(r) => {
            reach("C33.int");
            let (mut exact, mut scale) = (Z::k(1), Z::k(1));
            for _ in 0..n {
                exact = exact * zb;
            }
            for _ in 1..n {
                scale = scale * Z::k(ONE);
            }
            check((zd(r) * scale).le(exact), "C33.int_at_most");
            // each of the at most n products loses less than one part, multiplied by less than 2^n
            check((exact + Z::k(1)).le((zd(r) + Z::k((n as u128) << n)) * scale), "C33.int_exact");
        }
        Err(_) => check(false, "C33.accepts"),
    }
}
pub fn h_pow_int() {
    int(2 + choose("n", 3) as u64)
}
pub fn h_pow_int_5() {
    int(5 + choose("n", 3) as u64)
}
/// the weight ratios 1:4, 1:3, 3:7, 1:2, 2:3, 4:5 and an odd one
const EXPS: [u128; 7] = [ONE / 4, ONE / 3, ONE / 7 * 3, ONE / 2, ONE / 3 * 2, ONE / 5 * 4, 987_654_321_012_345_678];
/// fractional exponents near 1: the binomial series up to the second order, off by the third at most
fn frac(d: u128, any: bool) {
    let b = u128_in("base", ONE - d, ONE + d);
    let e = if any { u128_in("exp", 1, ONE - 1) } else { cosmwasm_std::Uint128::new(EXPS[choose("exp", EXPS.len())]) };
    let (zb, ze, one) = (Z::u128(b), Z::u128(e), Z::k(ONE));
    match no_panic("C33.frac_no_panic", || ibcx_math::pow(d256(b), d256(e))) {
        Ok(r) => {
            reach("C33.frac");
            let tol = Z::k(ONE / 100_000_000);
            let above = one.le(zb);
            let x = Z::ite(above, zb - one, one - zb);
            // all scaled by 6*10^72: 1+e(b-1), less e(1-e)/2 x^2; the third order is e(1-e)(2-e)/6 x^3
            let r = zd(r);
            let p = one * one * one * Z::k(6);
            let first = (one * one + ze * (zb - one)) * one * Z::k(6) * one;
            if any {
                // the tangent is above, less than the second order (below 1 divided by the base) off
                let second = ze * (one - ze) * x * x * Z::k(3);
                check((r * p).le(first + tol * p), "C33.frac_at_most");
                check((first * zb).le((r + tol) * p * zb + second * Z::ite(above, zb, one)), "C33.frac_at_least");
                return;
            }
            let two = first - ze * (one - ze) * x * x * Z::k(3);
            let third = ze * (one - ze) * x * x * Z::ite(above, x, x + x / Z::k(10) + Z::k(1)) / one * Z::k(2);
            // above 1 the series alternates, below 1 every order takes away
            check((r * p).le(two + Z::ite(above, third, Z::k(0)) + tol * p), "C33.frac_at_most");
            check((two - Z::ite(above, Z::k(0), third)).le((r + tol) * p), "C33.frac_at_least");
        }
        Err(_) => check(false, "C33.accepts"),
    }
}
pub fn h_pow_frac() {
    frac(ONE / 1000, false)
}
pub fn h_pow_frac_any() {
    frac(ONE / 1000, true)
}
pub fn h_pow_frac_wide() {
    frac(ONE / 20, false)
}
/// an exponent is split into its integer and its fraction
pub fn h_pow_split() {
    let n = 1 + choose("n", 3) as u64;
    let b = u128_in("base", ONE - ONE / 1000, ONE + ONE / 1000);
    let f = cosmwasm_std::Uint128::new(EXPS[choose("fraction", EXPS.len())]);
    let i = Decimal256::from_ratio(n, 1u64);
    let (w, x, y) = (pow(d256(b), i + d256(f)), pow(d256(b), i), pow(d256(b), d256(f)));
    match (w, x, y) {
        (Some(w), Some(x), Some(y)) => {
            reach("C33.split");
            let p = x * y;
            check((w * Z::k(ONE)).le(p + Z::k(2 * ONE)) & p.le((w + Z::k(2)) * Z::k(ONE)), "C33.splits")
        }
        _ => check(false, "C33.accepts"),
    }
}
