use core::cmp::Ordering;
use core::fmt::{self, Write};
use core::ops::{
    Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign,
};
use core::str::FromStr;
use forward_ref::{forward_ref_binop, forward_ref_op_assign};
use schemars::JsonSchema;
use serde::{de, ser, Deserialize, Deserializer, Serialize};
use thiserror::Error;

use crate::errors::{
    CheckedFromRatioError, CheckedMultiplyRatioError, DivideByZeroError, OverflowError,
    OverflowOperation, RoundDownOverflowError, RoundUpOverflowError, StdError,
};
use crate::{forward_ref_partial_eq, Decimal, Decimal256, Int512, SignedDecimal};

use super::Fraction;
use super::Int256;

/// A signed fixed-point decimal value with 18 fractional digits,
/// i.e. SignedDecimal256(1_000_000_000_000_000_000) == 1.0
///
/// The greatest possible value that can be represented is
/// 57896044618658097711785492504343953926634992332820282019728.792003956564819967
/// (which is (2^255 - 1) / 10^18)
/// and the smallest is
/// -57896044618658097711785492504343953926634992332820282019728.792003956564819968
/// (which is -2^255 / 10^18).
#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, JsonSchema)]
pub struct SignedDecimal256(#[schemars(with = "String")] Int256);

forward_ref_partial_eq!(SignedDecimal256, SignedDecimal256);

#[derive(Error, Debug, PartialEq, Eq)]
#[error("SignedDecimal256 range exceeded")]
pub struct SignedDecimal256RangeExceeded;

impl SignedDecimal256 {
    const DECIMAL_FRACTIONAL: Int256 = // 1*10**18
        Int256::from_i128(1_000_000_000_000_000_000);
    const DECIMAL_FRACTIONAL_SQUARED: Int256 = // 1*10**36
        Int256::from_i128(1_000_000_000_000_000_000_000_000_000_000_000_000);

    /// The number of decimal places. Since decimal types are fixed-point rather than
    /// floating-point, this is a constant.
    pub const DECIMAL_PLACES: u32 = 18; // This needs to be an even number.

    /// The largest value that can be represented by this signed decimal type.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::SignedDecimal256;
    /// assert_eq!(
    ///     SignedDecimal256::MAX.to_string(),
    ///     "57896044618658097711785492504343953926634992332820282019728.792003956564819967"
    /// );
    /// ```
    pub const MAX: Self = Self(Int256::MAX);

    /// The smallest value that can be represented by this signed decimal type.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::SignedDecimal256;
    /// assert_eq!(
    ///     SignedDecimal256::MIN.to_string(),
    ///     "-57896044618658097711785492504343953926634992332820282019728.792003956564819968"
    /// );
    /// ```
    pub const MIN: Self = Self(Int256::MIN);

    /// Creates a SignedDecimal256(value)
    /// This is equivalent to `SignedDecimal256::from_atomics(value, 18)` but usable in a const context.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::{SignedDecimal256, Int256};
    /// assert_eq!(SignedDecimal256::new(Int256::one()).to_string(), "0.000000000000000001");
    /// ```
    pub const fn new(value: Int256) -> Self {
        Self(value)
    }

    /// Creates a SignedDecimal256(Int256(value))
    /// This is equivalent to `SignedDecimal256::from_atomics(value, 18)` but usable in a const context.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::SignedDecimal256;
    /// assert_eq!(SignedDecimal256::raw(1234i128).to_string(), "0.000000000000001234");
    /// ```
    pub const fn raw(value: i128) -> Self {
        Self(Int256::from_i128(value))
    }

    /// Create a 1.0 SignedDecimal256
    #[inline]
    pub const fn one() -> Self {
        Self(Self::DECIMAL_FRACTIONAL)
    }

    /// Create a -1.0 SignedDecimal256
    #[inline]
    pub const fn negative_one() -> Self {
        // -DECIMAL_FRATIONAL
        Self(Int256::from_i128(-1_000_000_000_000_000_000))
    }

    /// Create a 0.0 SignedDecimal256
    #[inline]
    pub const fn zero() -> Self {
        Self(Int256::zero())
    }

    /// Convert x% into SignedDecimal256
    pub fn percent(x: i64) -> Self {
        Self(((x as i128) * 10_000_000_000_000_000).into())
    }

    /// Convert permille (x/1000) into SignedDecimal256
    pub fn permille(x: i64) -> Self {
        Self(((x as i128) * 1_000_000_000_000_000).into())
    }

    /// Convert basis points (x/10000) into SignedDecimal256
    pub fn bps(x: i64) -> Self {
        Self(((x as i128) * 100_000_000_000_000).into())
    }

    /// Creates a signed decimal from a number of atomic units and the number
    /// of decimal places. The inputs will be converted internally to form
    /// a signed decimal with 18 decimal places. So the input 123 and 2 will create
    /// the decimal 1.23.
    ///
    /// Using 18 decimal places is slightly more efficient than other values
    /// as no internal conversion is necessary.
    ///
    /// ## Examples
    ///
    /// ```
    /// # use cosmwasm_std::{SignedDecimal256, Int256};
    /// let a = SignedDecimal256::from_atomics(Int256::from(1234), 3).unwrap();
    /// assert_eq!(a.to_string(), "1.234");
    ///
    /// let a = SignedDecimal256::from_atomics(1234i128, 0).unwrap();
    /// assert_eq!(a.to_string(), "1234");
    ///
    /// let a = SignedDecimal256::from_atomics(1i64, 18).unwrap();
    /// assert_eq!(a.to_string(), "0.000000000000000001");
    ///
    /// let a = SignedDecimal256::from_atomics(-1i64, 18).unwrap();
    /// assert_eq!(a.to_string(), "-0.000000000000000001");
    /// ```
    pub fn from_atomics(
        atomics: impl Into<Int256>,
        decimal_places: u32,
    ) -> Result<Self, SignedDecimal256RangeExceeded> {
        let atomics = atomics.into();
        let ten = Int256::from(10u64);
        Ok(match decimal_places.cmp(&(Self::DECIMAL_PLACES)) {
            Ordering::Less => {
                let digits = (Self::DECIMAL_PLACES) - decimal_places; // No overflow because decimal_places < DECIMAL_PLACES
                let factor = ten.checked_pow(digits).unwrap(); // Safe because digits <= 17
                Self(
                    atomics
                        .checked_mul(factor)
                        .map_err(|_| SignedDecimal256RangeExceeded)?,
                )
            }
            Ordering::Equal => Self(atomics),
            Ordering::Greater => {
                let digits = decimal_places - (Self::DECIMAL_PLACES); // No overflow because decimal_places > DECIMAL_PLACES
                if let Ok(factor) = ten.checked_pow(digits) {
                    Self(atomics.checked_div(factor).unwrap()) // Safe because factor cannot be zero
                } else {
                    // In this case `factor` exceeds the Int256 range.
                    // Any Int256 `x` divided by `factor` with `factor > Int256::MAX` is 0.
                    // Try e.g. Python3: `(2**128-1) // 2**128`
                    Self(Int256::zero())
                }
            }
        })
    }

    /// Returns the ratio (numerator / denominator) as a SignedDecimal256
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::SignedDecimal256;
    /// assert_eq!(
    ///     SignedDecimal256::from_ratio(1, 3).to_string(),
    ///     "0.333333333333333333"
    /// );
    /// ```
    pub fn from_ratio(numerator: impl Into<Int256>, denominator: impl Into<Int256>) -> Self {
        match SignedDecimal256::checked_from_ratio(numerator, denominator) {
            Ok(value) => value,
            Err(CheckedFromRatioError::DivideByZero) => {
                panic!("Denominator must not be zero")
            }
            Err(CheckedFromRatioError::Overflow) => panic!("Multiplication overflow"),
        }
    }

    /// Returns the ratio (numerator / denominator) as a SignedDecimal256
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::{SignedDecimal256, CheckedFromRatioError};
    /// assert_eq!(
    ///     SignedDecimal256::checked_from_ratio(1, 3).unwrap().to_string(),
    ///     "0.333333333333333333"
    /// );
    /// assert_eq!(
    ///     SignedDecimal256::checked_from_ratio(1, 0),
    ///     Err(CheckedFromRatioError::DivideByZero)
    /// );
    /// ```
    pub fn checked_from_ratio(
        numerator: impl Into<Int256>,
        denominator: impl Into<Int256>,
    ) -> Result<Self, CheckedFromRatioError> {
        let numerator: Int256 = numerator.into();
        let denominator: Int256 = denominator.into();
        match numerator.checked_multiply_ratio(Self::DECIMAL_FRACTIONAL, denominator) {
            Ok(ratio) => {
                // numerator * DECIMAL_FRACTIONAL / denominator
                Ok(SignedDecimal256(ratio))
            }
            Err(CheckedMultiplyRatioError::Overflow) => Err(CheckedFromRatioError::Overflow),
            Err(CheckedMultiplyRatioError::DivideByZero) => {
                Err(CheckedFromRatioError::DivideByZero)
            }
        }
    }

    /// Returns `true` if the number is 0
    #[must_use]
    pub const fn is_zero(&self) -> bool {
        self.0.is_zero()
    }

    /// Returns `true` if the number is negative (< 0)
    #[must_use]
    pub const fn is_negative(&self) -> bool {
        self.0.is_negative()
    }

    /// A decimal is an integer of atomic units plus a number that specifies the
    /// position of the decimal dot. So any decimal can be expressed as two numbers.
    ///
    /// ## Examples
    ///
    /// ```
    /// # use cosmwasm_std::{SignedDecimal256, Int256};
    /// # use core::str::FromStr;
    /// // Value with whole and fractional part
    /// let a = SignedDecimal256::from_str("1.234").unwrap();
    /// assert_eq!(a.decimal_places(), 18);
    /// assert_eq!(a.atomics(), Int256::from(1234000000000000000i128));
    ///
    /// // Smallest possible value
    /// let b = SignedDecimal256::from_str("0.000000000000000001").unwrap();
    /// assert_eq!(b.decimal_places(), 18);
    /// assert_eq!(b.atomics(), Int256::from(1));
    /// ```
    #[must_use]
    #[inline]
    pub const fn atomics(&self) -> Int256 {
        self.0
    }

    /// The number of decimal places. This is a constant value for now
    /// but this could potentially change as the type evolves.
    ///
    /// See also [`SignedDecimal256::atomics()`].
    #[must_use]
    #[inline]
    pub const fn decimal_places(&self) -> u32 {
        Self::DECIMAL_PLACES
    }

    /// Rounds value by truncating the decimal places.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::SignedDecimal256;
    /// # use core::str::FromStr;
    /// assert!(SignedDecimal256::from_str("0.6").unwrap().trunc().is_zero());
    /// assert_eq!(SignedDecimal256::from_str("-5.8").unwrap().trunc().to_string(), "-5");
    /// ```
    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn trunc(&self) -> Self {
        Self((self.0 / Self::DECIMAL_FRACTIONAL) * Self::DECIMAL_FRACTIONAL)
    }

    /// Rounds value down after decimal places. Panics on overflow.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::SignedDecimal256;
    /// # use core::str::FromStr;
    /// assert!(SignedDecimal256::from_str("0.6").unwrap().floor().is_zero());
    /// assert_eq!(SignedDecimal256::from_str("-5.2").unwrap().floor().to_string(), "-6");
    /// ```
    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn floor(&self) -> Self {
        match self.checked_floor() {
            Ok(value) => value,
            Err(_) => panic!("attempt to floor with overflow"),
        }
    }

    /// Rounds value down after decimal places.
    pub fn checked_floor(&self) -> Result<Self, RoundDownOverflowError> {
        if self.is_negative() {
            let truncated = self.trunc();

            if truncated != self {
                truncated
                    .checked_sub(SignedDecimal256::one())
                    .map_err(|_| RoundDownOverflowError)
            } else {
                Ok(truncated)
            }
        } else {
            Ok(self.trunc())
        }
    }

    /// Rounds value up after decimal places. Panics on overflow.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::SignedDecimal256;
    /// # use core::str::FromStr;
    /// assert_eq!(SignedDecimal256::from_str("0.2").unwrap().ceil(), SignedDecimal256::one());
    /// assert_eq!(SignedDecimal256::from_str("-5.8").unwrap().ceil().to_string(), "-5");
    /// ```
    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn ceil(&self) -> Self {
        match self.checked_ceil() {
            Ok(value) => value,
            Err(_) => panic!("attempt to ceil with overflow"),
        }
    }

    /// Rounds value up after decimal places. Returns OverflowError on overflow.
    pub fn checked_ceil(&self) -> Result<Self, RoundUpOverflowError> {
        let floor = self.floor();
        if floor == self {
            Ok(floor)
        } else {
            floor
                .checked_add(SignedDecimal256::one())
                .map_err(|_| RoundUpOverflowError)
        }
    }

    /// Computes `self + other`, returning an `OverflowError` if an overflow occurred.
    pub fn checked_add(self, other: Self) -> Result<Self, OverflowError> {
        self.0
            .checked_add(other.0)
            .map(Self)
            .map_err(|_| OverflowError::new(OverflowOperation::Add, self, other))
    }

    /// Computes `self - other`, returning an `OverflowError` if an overflow occurred.
    pub fn checked_sub(self, other: Self) -> Result<Self, OverflowError> {
        self.0
            .checked_sub(other.0)
            .map(Self)
            .map_err(|_| OverflowError::new(OverflowOperation::Sub, self, other))
    }

    /// Multiplies one `SignedDecimal256` by another, returning an `OverflowError` if an overflow occurred.
    pub fn checked_mul(self, other: Self) -> Result<Self, OverflowError> {
        let result_as_int512 =
            self.numerator().full_mul(other.numerator()) / Int512::from(Self::DECIMAL_FRACTIONAL);
        result_as_int512
            .try_into()
            .map(Self)
            .map_err(|_| OverflowError {
                operation: OverflowOperation::Mul,
                operand1: self.to_string(),
                operand2: other.to_string(),
            })
    }

    /// Raises a value to the power of `exp`, panics if an overflow occurred.
    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn pow(self, exp: u32) -> Self {
        match self.checked_pow(exp) {
            Ok(value) => value,
            Err(_) => panic!("Multiplication overflow"),
        }
    }

    /// Raises a value to the power of `exp`, returning an `OverflowError` if an overflow occurred.
    pub fn checked_pow(self, exp: u32) -> Result<Self, OverflowError> {
        // This uses the exponentiation by squaring algorithm:
        // https://en.wikipedia.org/wiki/Exponentiation_by_squaring#Basic_method

        fn inner(mut x: SignedDecimal256, mut n: u32) -> Result<SignedDecimal256, OverflowError> {
            if n == 0 {
                return Ok(SignedDecimal256::one());
            }

            let mut y = SignedDecimal256::one();

            while n > 1 {
                if n % 2 == 0 {
                    x = x.checked_mul(x)?;
                    n /= 2;
                } else {
                    y = x.checked_mul(y)?;
                    x = x.checked_mul(x)?;
                    n = (n - 1) / 2;
                }
            }

            Ok(x * y)
        }

        inner(self, exp).map_err(|_| OverflowError {
            operation: OverflowOperation::Pow,
            operand1: self.to_string(),
            operand2: exp.to_string(),
        })
    }

    pub fn checked_div(self, other: Self) -> Result<Self, CheckedFromRatioError> {
        SignedDecimal256::checked_from_ratio(self.numerator(), other.numerator())
    }

    /// Computes `self % other`, returning an `DivideByZeroError` if `other == 0`.
    pub fn checked_rem(self, other: Self) -> Result<Self, DivideByZeroError> {
        self.0
            .checked_rem(other.0)
            .map(Self)
            .map_err(|_| DivideByZeroError::new(self))
    }

    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub const fn abs_diff(self, other: Self) -> Decimal256 {
        Decimal256::new(self.0.abs_diff(other.0))
    }

    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn saturating_add(self, other: Self) -> Self {
        Self(self.0.saturating_add(other.0))
    }

    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn saturating_sub(self, other: Self) -> Self {
        Self(self.0.saturating_sub(other.0))
    }

    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn saturating_mul(self, other: Self) -> Self {
        match self.checked_mul(other) {
            Ok(value) => value,
            Err(_) => {
                // both negative or both positive results in positive number, otherwise negative
                if self.is_negative() == other.is_negative() {
                    Self::MAX
                } else {
                    Self::MIN
                }
            }
        }
    }

    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn saturating_pow(self, exp: u32) -> Self {
        match self.checked_pow(exp) {
            Ok(value) => value,
            Err(_) => {
                // odd exponent of negative number results in negative number
                // everything else results in positive number
                if self.is_negative() && exp % 2 == 1 {
                    Self::MIN
                } else {
                    Self::MAX
                }
            }
        }
    }

    /// Converts this decimal to a signed integer by rounding down
    /// to the next integer, e.g. 22.5 becomes 22 and -1.2 becomes -2.
    ///
    /// ## Examples
    ///
    /// ```
    /// use core::str::FromStr;
    /// use cosmwasm_std::{SignedDecimal256, Int256};
    ///
    /// let d = SignedDecimal256::from_str("12.345").unwrap();
    /// assert_eq!(d.to_int_floor(), Int256::from(12));
    ///
    /// let d = SignedDecimal256::from_str("-12.999").unwrap();
    /// assert_eq!(d.to_int_floor(), Int256::from(-13));
    ///
    /// let d = SignedDecimal256::from_str("-0.05").unwrap();
    /// assert_eq!(d.to_int_floor(), Int256::from(-1));
    /// ```
    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn to_int_floor(self) -> Int256 {
        if self.is_negative() {
            // Using `x.to_int_floor() = -(-x).to_int_ceil()` for a negative `x`,
            // but avoiding overflow by implementing the formula from `to_int_ceil` directly.
            let x = self.0;
            let y = Self::DECIMAL_FRACTIONAL;
            // making sure not to negate `x`, as this would overflow
            -Int256::one() - ((-Int256::one() - x) / y)
        } else {
            self.to_int_trunc()
        }
    }

    /// Converts this decimal to a signed integer by truncating
    /// the fractional part, e.g. 22.5 becomes 22.
    ///
    /// ## Examples
    ///
    /// ```
    /// use core::str::FromStr;
    /// use cosmwasm_std::{SignedDecimal256, Int256};
    ///
    /// let d = SignedDecimal256::from_str("12.345").unwrap();
    /// assert_eq!(d.to_int_trunc(), Int256::from(12));
    ///
    /// let d = SignedDecimal256::from_str("-12.999").unwrap();
    /// assert_eq!(d.to_int_trunc(), Int256::from(-12));
    ///
    /// let d = SignedDecimal256::from_str("75.0").unwrap();
    /// assert_eq!(d.to_int_trunc(), Int256::from(75));
    /// ```
    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn to_int_trunc(self) -> Int256 {
        self.0 / Self::DECIMAL_FRACTIONAL
    }

    /// Converts this decimal to a signed integer by rounding up
    /// to the next integer, e.g. 22.3 becomes 23 and -1.2 becomes -1.
    ///
    /// ## Examples
    ///
    /// ```
    /// use core::str::FromStr;
    /// use cosmwasm_std::{SignedDecimal256, Int256};
    ///
    /// let d = SignedDecimal256::from_str("12.345").unwrap();
    /// assert_eq!(d.to_int_ceil(), Int256::from(13));
    ///
    /// let d = SignedDecimal256::from_str("-12.999").unwrap();
    /// assert_eq!(d.to_int_ceil(), Int256::from(-12));
    ///
    /// let d = SignedDecimal256::from_str("75.0").unwrap();
    /// assert_eq!(d.to_int_ceil(), Int256::from(75));
    /// ```
    #[must_use = "this returns the result of the operation, without modifying the original"]
    pub fn to_int_ceil(self) -> Int256 {
        if self.is_negative() {
            self.to_int_trunc()
        } else {
            // Using `q = 1 + ((x - 1) / y); // if x != 0` with unsigned integers x, y, q
            // from https://stackoverflow.com/a/2745086/2013738. We know `x + y` CAN overflow.
            let x = self.0;
            let y = Self::DECIMAL_FRACTIONAL;
            if x.is_zero() {
                Int256::zero()
            } else {
                Int256::one() + ((x - Int256::one()) / y)
            }
        }
    }
}

impl Fraction<Int256> for SignedDecimal256 {
    #[inline]
    fn numerator(&self) -> Int256 {
        self.0
    }

    #[inline]
    fn denominator(&self) -> Int256 {
        Self::DECIMAL_FRACTIONAL
    }

    /// Returns the multiplicative inverse `1/d` for decimal `d`.
    ///
    /// If `d` is zero, none is returned.
    fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            None
        } else {
            // Let self be p/q with p = self.0 and q = DECIMAL_FRACTIONAL.
            // Now we calculate the inverse a/b = q/p such that b = DECIMAL_FRACTIONAL. Then
            // `a = DECIMAL_FRACTIONAL*DECIMAL_FRACTIONAL / self.0`.
            Some(SignedDecimal256(Self::DECIMAL_FRACTIONAL_SQUARED / self.0))
        }
    }
}

impl Neg for SignedDecimal256 {
    type Output = Self;

    fn neg(self) -> Self::Output {
        Self(-self.0)
    }
}

impl From<SignedDecimal> for SignedDecimal256 {
    fn from(value: SignedDecimal) -> Self {
        Self::new(value.atomics().into())
    }
}

impl From<Decimal> for SignedDecimal256 {
    fn from(value: Decimal) -> Self {
        Self::new(value.atomics().into())
    }
}

impl TryFrom<Decimal256> for SignedDecimal256 {
    type Error = SignedDecimal256RangeExceeded;

    fn try_from(value: Decimal256) -> Result<Self, Self::Error> {
        value
            .atomics()
            .try_into()
            .map(SignedDecimal256)
            .map_err(|_| SignedDecimal256RangeExceeded)
    }
}

impl FromStr for SignedDecimal256 {
    type Err = StdError;

    /// Converts the decimal string to a SignedDecimal256
    /// Possible inputs: "1.23", "1", "000012", "1.123000000", "-1.12300"
    /// Disallowed: "", ".23"
    ///
    /// This never performs any kind of rounding.
    /// More than DECIMAL_PLACES fractional digits, even zeros, result in an error.
    fn from_str(input: &str) -> Result<Self, Self::Err> {
        let mut parts_iter = input.split('.');

        let whole_part = parts_iter.next().unwrap(); // split always returns at least one element
        let is_neg = whole_part.starts_with('-');

        let whole = whole_part
            .parse::<Int256>()
            .map_err(|_| StdError::generic_err("Error parsing whole"))?;
        let mut atomics = whole
            .checked_mul(Self::DECIMAL_FRACTIONAL)
            .map_err(|_| StdError::generic_err("Value too big"))?;

        if let Some(fractional_part) = parts_iter.next() {
            let fractional = fractional_part
                .parse::<u64>() // u64 is enough for 18 decimal places
                .map_err(|_| StdError::generic_err("Error parsing fractional"))?;
            let exp = (Self::DECIMAL_PLACES.checked_sub(fractional_part.len() as u32)).ok_or_else(
                || {
                    StdError::generic_err(format!(
                        "Cannot parse more than {} fractional digits",
                        Self::DECIMAL_PLACES
                    ))
                },
            )?;
            debug_assert!(exp <= Self::DECIMAL_PLACES);
            let fractional_factor = Int256::from(10i128.pow(exp));

            // This multiplication can't overflow because
            // fractional < 10^DECIMAL_PLACES && fractional_factor <= 10^DECIMAL_PLACES
            let fractional_part = Int256::from(fractional)
                .checked_mul(fractional_factor)
                .unwrap();

            // for negative numbers, we need to subtract the fractional part
            atomics = if is_neg {
                atomics.checked_sub(fractional_part)
            } else {
                atomics.checked_add(fractional_part)
            }
            .map_err(|_| StdError::generic_err("Value too big"))?;
        }

        if parts_iter.next().is_some() {
            return Err(StdError::generic_err("Unexpected number of dots"));
        }

        Ok(SignedDecimal256(atomics))
    }
}

impl fmt::Display for SignedDecimal256 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let whole = (self.0) / Self::DECIMAL_FRACTIONAL;
        let fractional = (self.0).checked_rem(Self::DECIMAL_FRACTIONAL).unwrap();

        if fractional.is_zero() {
            write!(f, "{whole}")
        } else {
            let fractional_string = format!(
                "{:0>padding$}",
                fractional.abs(), // fractional should always be printed as positive
                padding = Self::DECIMAL_PLACES as usize
            );
            if self.is_negative() {
                f.write_char('-')?;
            }
            write!(
                f,
                "{whole}.{fractional}",
                whole = whole.abs(),
                fractional = fractional_string.trim_end_matches('0')
            )
        }
    }
}

impl fmt::Debug for SignedDecimal256 {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "SignedDecimal256({self})")
    }
}

impl Add for SignedDecimal256 {
    type Output = Self;

    fn add(self, other: Self) -> Self {
        SignedDecimal256(self.0 + other.0)
    }
}
forward_ref_binop!(impl Add, add for SignedDecimal256, SignedDecimal256);

impl AddAssign for SignedDecimal256 {
    fn add_assign(&mut self, rhs: SignedDecimal256) {
        *self = *self + rhs;
    }
}
forward_ref_op_assign!(impl AddAssign, add_assign for SignedDecimal256, SignedDecimal256);

impl Sub for SignedDecimal256 {
    type Output = Self;

    fn sub(self, other: Self) -> Self {
        SignedDecimal256(self.0 - other.0)
    }
}
forward_ref_binop!(impl Sub, sub for SignedDecimal256, SignedDecimal256);

impl SubAssign for SignedDecimal256 {
    fn sub_assign(&mut self, rhs: SignedDecimal256) {
        *self = *self - rhs;
    }
}
forward_ref_op_assign!(impl SubAssign, sub_assign for SignedDecimal256, SignedDecimal256);

impl Mul for SignedDecimal256 {
    type Output = Self;

    #[allow(clippy::suspicious_arithmetic_impl)]
    fn mul(self, other: Self) -> Self {
        // SignedDecimal256s are fractions. We can multiply two decimals a and b
        // via
        //       (a.numerator() * b.numerator()) / (a.denominator() * b.denominator())
        //     = (a.numerator() * b.numerator()) / a.denominator() / b.denominator()

        let result_as_int512 =
            self.numerator().full_mul(other.numerator()) / Int512::from(Self::DECIMAL_FRACTIONAL);
        match result_as_int512.try_into() {
            Ok(result) => Self(result),
            Err(_) => panic!("attempt to multiply with overflow"),
        }
    }
}
forward_ref_binop!(impl Mul, mul for SignedDecimal256, SignedDecimal256);

impl MulAssign for SignedDecimal256 {
    fn mul_assign(&mut self, rhs: SignedDecimal256) {
        *self = *self * rhs;
    }
}
forward_ref_op_assign!(impl MulAssign, mul_assign for SignedDecimal256, SignedDecimal256);

impl Div for SignedDecimal256 {
    type Output = Self;

    fn div(self, other: Self) -> Self {
        match SignedDecimal256::checked_from_ratio(self.numerator(), other.numerator()) {
            Ok(ratio) => ratio,
            Err(CheckedFromRatioError::DivideByZero) => {
                panic!("Division failed - denominator must not be zero")
            }
            Err(CheckedFromRatioError::Overflow) => {
                panic!("Division failed - multiplication overflow")
            }
        }
    }
}
forward_ref_binop!(impl Div, div for SignedDecimal256, SignedDecimal256);

impl DivAssign for SignedDecimal256 {
    fn div_assign(&mut self, rhs: SignedDecimal256) {
        *self = *self / rhs;
    }
}
forward_ref_op_assign!(impl DivAssign, div_assign for SignedDecimal256, SignedDecimal256);

impl Div<Int256> for SignedDecimal256 {
    type Output = Self;

    fn div(self, rhs: Int256) -> Self::Output {
        SignedDecimal256(self.0 / rhs)
    }
}

impl DivAssign<Int256> for SignedDecimal256 {
    fn div_assign(&mut self, rhs: Int256) {
        self.0 /= rhs;
    }
}

impl Rem for SignedDecimal256 {
    type Output = Self;

    /// # Panics
    ///
    /// This operation will panic if `rhs` is zero
    #[inline]
    fn rem(self, rhs: Self) -> Self {
        Self(self.0.rem(rhs.0))
    }
}
forward_ref_binop!(impl Rem, rem for SignedDecimal256, SignedDecimal256);

impl RemAssign<SignedDecimal256> for SignedDecimal256 {
    fn rem_assign(&mut self, rhs: SignedDecimal256) {
        *self = *self % rhs;
    }
}
forward_ref_op_assign!(impl RemAssign, rem_assign for SignedDecimal256, SignedDecimal256);

impl<A> core::iter::Sum<A> for SignedDecimal256
where
    Self: Add<A, Output = Self>,
{
    fn sum<I: Iterator<Item = A>>(iter: I) -> Self {
        iter.fold(Self::zero(), Add::add)
    }
}

/// Serializes as a decimal string
impl Serialize for SignedDecimal256 {
    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: ser::Serializer,
    {
        serializer.serialize_str(&self.to_string())
    }
}

/// Deserializes as a base64 string
impl<'de> Deserialize<'de> for SignedDecimal256 {
    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
    where
        D: Deserializer<'de>,
    {
        deserializer.deserialize_str(SignedDecimal256Visitor)
    }
}

struct SignedDecimal256Visitor;

impl<'de> de::Visitor<'de> for SignedDecimal256Visitor {
    type Value = SignedDecimal256;

    fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
        formatter.write_str("string-encoded decimal")
    }

    fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
    where
        E: de::Error,
    {
        match SignedDecimal256::from_str(v) {
            Ok(d) => Ok(d),
            Err(e) => Err(E::custom(format!("Error parsing decimal '{v}': {e}"))),
        }
    }
}

