use alloc::collections::BTreeMap;
use core::fmt;
use core::str::FromStr;

use crate::{
    errors::CoinsError, Coin, OverflowError, OverflowOperation, StdError, StdResult, Uint128,
};

/// A collection of coins, similar to Cosmos SDK's `sdk.Coins` struct.
///
/// Differently from `sdk.Coins`, which is a vector of `sdk.Coin`, here we
/// implement Coins as a BTreeMap that maps from coin denoms to `Coin`.
/// This has a number of advantages:
///
/// - coins are naturally sorted alphabetically by denom
/// - duplicate denoms are automatically removed
/// - cheaper for searching/inserting/deleting: O(log(n)) compared to O(n)
#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Coins(BTreeMap<String, Coin>);

/// Casting a Vec<Coin> to Coins.
/// The Vec can be out of order, but must not contain duplicate denoms.
/// If you want to sum up duplicates, create an empty instance using `Coins::default` and
/// use `Coins::add` to add your coins.
impl TryFrom<Vec<Coin>> for Coins {
    type Error = CoinsError;

    fn try_from(vec: Vec<Coin>) -> Result<Self, CoinsError> {
        let mut map = BTreeMap::new();
        for coin in vec {
            if coin.amount.is_zero() {
                continue;
            }

            // if the insertion returns a previous value, we have a duplicate denom
            if map.insert(coin.denom.clone(), coin).is_some() {
                return Err(CoinsError::DuplicateDenom);
            }
        }

        Ok(Self(map))
    }
}

impl TryFrom<&[Coin]> for Coins {
    type Error = CoinsError;

    fn try_from(slice: &[Coin]) -> Result<Self, CoinsError> {
        slice.to_vec().try_into()
    }
}

impl From<Coin> for Coins {
    fn from(value: Coin) -> Self {
        let mut coins = Coins::default();
        // this can never overflow (because there are no coins in there yet), so we can unwrap
        coins.add(value).unwrap();
        coins
    }
}

impl<const N: usize> TryFrom<[Coin; N]> for Coins {
    type Error = CoinsError;

    fn try_from(slice: [Coin; N]) -> Result<Self, CoinsError> {
        slice.to_vec().try_into()
    }
}

impl From<Coins> for Vec<Coin> {
    fn from(value: Coins) -> Self {
        value.into_vec()
    }
}

impl FromStr for Coins {
    type Err = StdError;

    fn from_str(s: &str) -> StdResult<Self> {
        if s.is_empty() {
            return Ok(Self::default());
        }

        Ok(s.split(',')
            .map(Coin::from_str)
            .collect::<Result<Vec<_>, _>>()?
            .try_into()?)
    }
}

impl fmt::Display for Coins {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let s = self
            .0
            .values()
            .map(|coin| coin.to_string())
            .collect::<Vec<_>>()
            .join(",");
        write!(f, "{s}")
    }
}

impl Coins {
    /// Conversion to Vec<Coin>, while NOT consuming the original object.
    ///
    /// This produces a vector of coins that is sorted alphabetically by denom with
    /// no duplicate denoms.
    pub fn to_vec(&self) -> Vec<Coin> {
        self.0.values().cloned().collect()
    }

    /// Conversion to Vec<Coin>, consuming the original object.
    ///
    /// This produces a vector of coins that is sorted alphabetically by denom with
    /// no duplicate denoms.
    pub fn into_vec(self) -> Vec<Coin> {
        self.0.into_values().collect()
    }

    /// Returns the number of different denoms in this collection.
    pub fn len(&self) -> usize {
        self.0.len()
    }

    /// Returns `true` if this collection contains no coins.
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }

    /// Returns the denoms as a vector of strings.
    /// The vector is guaranteed to not contain duplicates and sorted alphabetically.
    pub fn denoms(&self) -> Vec<String> {
        self.0.keys().cloned().collect()
    }

    /// Returns the amount of the given denom or zero if the denom is not present.
    pub fn amount_of(&self, denom: &str) -> Uint128 {
        self.0
            .get(denom)
            .map(|c| c.amount)
            .unwrap_or_else(Uint128::zero)
    }

    /// Returns the amount of the given denom if and only if this collection contains only
    /// the given denom. Otherwise `None` is returned.
    ///
    /// # Examples
    ///
    /// ```rust
    /// use cosmwasm_std::{Coin, Coins, coin};
    ///
    /// let coins: Coins = [coin(100, "uatom")].try_into().unwrap();
    /// assert_eq!(coins.contains_only("uatom").unwrap().u128(), 100);
    /// assert_eq!(coins.contains_only("uluna"), None);
    /// ```
    ///
    /// ```rust
    /// use cosmwasm_std::{Coin, Coins, coin};
    ///
    /// let coins: Coins = [coin(100, "uatom"), coin(200, "uusd")].try_into().unwrap();
    /// assert_eq!(coins.contains_only("uatom"), None);
    /// ```
    pub fn contains_only(&self, denom: &str) -> Option<Uint128> {
        if self.len() == 1 {
            self.0.get(denom).map(|c| c.amount)
        } else {
            None
        }
    }

    /// Adds the given coin to this `Coins` instance.
    /// Errors in case of overflow.
    pub fn add(&mut self, coin: Coin) -> StdResult<()> {
        if coin.amount.is_zero() {
            return Ok(());
        }

        // if the coin is not present yet, insert it, otherwise add to existing amount
        match self.0.get_mut(&coin.denom) {
            None => {
                self.0.insert(coin.denom.clone(), coin);
            }
            Some(existing) => {
                existing.amount = existing.amount.checked_add(coin.amount)?;
            }
        }
        Ok(())
    }

    /// Subtracts the given coin from this `Coins` instance.
    /// Errors in case of overflow or if the denom is not present.
    pub fn sub(&mut self, coin: Coin) -> StdResult<()> {
        match self.0.get_mut(&coin.denom) {
            Some(existing) => {
                existing.amount = existing.amount.checked_sub(coin.amount)?;
                // make sure to remove zero coin
                if existing.amount.is_zero() {
                    self.0.remove(&coin.denom);
                }
            }
            None => {
                // ignore zero subtraction
                if coin.amount.is_zero() {
                    return Ok(());
                }
                return Err(OverflowError::new(
                    OverflowOperation::Sub,
                    Uint128::zero(),
                    coin.amount,
                )
                .into());
            }
        }

        Ok(())
    }

    /// Returns an iterator over the coins.
    ///
    /// # Examples
    ///
    /// ```
    /// # use cosmwasm_std::{coin, Coin, Coins, Uint128};
    /// let mut coins = Coins::default();
    /// coins.add(coin(500, "uluna")).unwrap();
    /// coins.add(coin(1000, "uatom")).unwrap();
    /// let mut iterator = coins.iter();
    ///
    /// let uatom = iterator.next().unwrap();
    /// assert_eq!(uatom.denom, "uatom");
    /// assert_eq!(uatom.amount.u128(), 1000);
    ///
    /// let uluna = iterator.next().unwrap();
    /// assert_eq!(uluna.denom, "uluna");
    /// assert_eq!(uluna.amount.u128(), 500);
    ///
    /// assert_eq!(iterator.next(), None);
    /// ```
    pub fn iter(&self) -> CoinsIter<'_> {
        CoinsIter(self.0.iter())
    }
}

impl IntoIterator for Coins {
    type Item = Coin;
    type IntoIter = CoinsIntoIter;

    fn into_iter(self) -> Self::IntoIter {
        CoinsIntoIter(self.0.into_iter())
    }
}

impl<'a> IntoIterator for &'a Coins {
    type Item = &'a Coin;
    type IntoIter = CoinsIter<'a>;

    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

#[derive(Debug)]
pub struct CoinsIntoIter(alloc::collections::btree_map::IntoIter<String, Coin>);

impl Iterator for CoinsIntoIter {
    type Item = Coin;

    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|(_, coin)| coin)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        // Since btree_map::IntoIter implements ExactSizeIterator, this is guaranteed to return the exact length
        self.0.size_hint()
    }
}

impl DoubleEndedIterator for CoinsIntoIter {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().map(|(_, coin)| coin)
    }
}

impl ExactSizeIterator for CoinsIntoIter {
    fn len(&self) -> usize {
        self.0.len()
    }
}

#[derive(Debug)]
pub struct CoinsIter<'a>(alloc::collections::btree_map::Iter<'a, String, Coin>);

impl<'a> Iterator for CoinsIter<'a> {
    type Item = &'a Coin;

    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|(_, coin)| coin)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        // Since btree_map::Iter implements ExactSizeIterator, this is guaranteed to return the exact length
        self.0.size_hint()
    }
}

impl<'a> DoubleEndedIterator for CoinsIter<'a> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back().map(|(_, coin)| coin)
    }
}

impl<'a> ExactSizeIterator for CoinsIter<'a> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

