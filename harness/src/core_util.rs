//! Building an arbitrary state of the core contract and reading it back.
pub use crate::env::*;
pub use crate::sym::*;
pub use cosmwasm_std::{from_json, to_json_binary, Addr, Binary, Coin, Decimal, Deps, DepsMut, Env, Order, Response, StdError, StdResult, Storage, Uint128};
pub use ibcx_core::contract::{execute, instantiate, migrate, query, reply};
pub use ibcx_core::state::*;
pub use ibcx_interface::core::*;
use ibcx_interface::types::{SwapRoute, SwapRoutes};

pub const CORE: &str = "core";
pub const GOV: &str = "gov";
pub const COLL: &str = "collector";
pub const INDEX: &str = "factory/core/index";
pub const RESERVE: &str = "uosmo";
pub const DENOMS: [&str; 5] = ["uatom", "uosmo", "uatomx", "ujuno", "ibc/27"];
/// APR 100 %, the documented maximum of the streaming fee per second, in 1e-18
pub const MAX_STREAMING: u128 = 21_979_553_000;

/// A block time in whole seconds
pub fn any_now() -> u64 {
    u64_in("now", 1_600_000_000, MAX_SECS)
}
/// `n` index units with arbitrary decimals, listed in either direction
pub fn any_units(prefix: &str, n: usize, lo: u128, hi: u128) -> Vec<(String, Decimal)> {
    (0..n).map(|i| (DENOMS[i].to_string(), dec_in(&format!("{prefix}{i}"), lo, hi))).collect()
}
pub fn maybe_reversed(mut u: Vec<(String, Decimal)>) -> Vec<(String, Decimal)> {
    if u.len() > 1 && choose("reversed", 2) == 1 {
        u.reverse()
    }
    u
}
pub fn unit_of(u: &[(String, Decimal)], d: &str) -> Z {
    u.iter().find(|x| x.0 == d).map(|x| Z::dec(x.1)).unwrap_or(Z::k(0))
}
pub fn has(u: &[(String, Decimal)], d: &str) -> bool {
    u.iter().any(|x| x.0 == d)
}
/// the same denoms with the same values, in any order
pub fn same_units(a: &[(String, Decimal)], b: &[(String, Decimal)]) -> bool {
    let mut r = a.len() == b.len();
    for (d, x) in a {
        r &= has(b, d) & unit_of(b, d).eq(Z::dec(*x));
    }
    r
}
pub fn coin_amt(c: &[Coin], d: &str) -> Z {
    amt_in(c, d)
}
pub fn same_coins(a: &[Coin], b: &[Coin]) -> bool {
    let mut r = true;
    for c in a.iter().chain(b) {
        r &= amt_in(a, &c.denom).eq(amt_in(b, &c.denom));
    }
    r
}
pub fn config(paused: PauseInfo) -> Config {
    Config { gov: Addr::unchecked(GOV), paused, index_denom: INDEX.into(), reserve_denom: RESERVE.into() }
}
/// An expired pause is as good as none: with respect to any block time considered.
pub const LONG_AGO: u64 = 1_600_000_000;
/// The configuration, alone or (`full`) among everything else a contract in use has stored: a
/// pause that ran out, a pending governance, trade information of other pairs.
pub fn save_config(w: &mut World, paused: PauseInfo) {
    w.full = choose("full_state", 2) == 1;
    if !w.full {
        CONFIG.save(&mut w.st, &config(paused)).unwrap();
        return;
    }
    let p = if paused.paused { paused } else { PauseInfo { paused: true, expires_at: Some(LONG_AGO) } };
    CONFIG.save(&mut w.st, &config(p)).unwrap();
    set_pending(w, Some("pendgov"));
    for (i, (a, b)) in [("uaaa", "uusdc"), ("uother", RESERVE), (RESERVE, "uzzz")].iter().enumerate() {
        let rt = SwapRoutes(vec![SwapRoute { pool_id: 40 + i as u64, token_denom: b.to_string() }]);
        let t = TradeInfo { routes: rt, cooldown: 10, max_trade_amount: u128_any("other_max"), last_traded_at: if i == 0 { None } else { Some(u64_in("other_last", 0, u64::MAX)) } };
        TRADE_INFOS.save(&mut w.st, (a, b), &t).unwrap();
    }
}
pub fn set_pending(w: &mut World, who: Option<&str>) {
    match who {
        Some(x) => PENDING_GOV.save(&mut w.st, &Addr::unchecked(x)).unwrap(),
        None => PENDING_GOV.remove(&mut w.st),
    }
}
/// a fee the operation has nothing to do with
pub fn spare(w: &World, name: &str) -> Option<Decimal> {
    if w.full {
        Some(dec_in(name, 1, ONE - 1))
    } else {
        None
    }
}
/// whatever fees, where the operation has nothing to do with them
pub fn save_spare_fee(w: &mut World) {
    let sf = spare_streaming(w, LONG_AGO, &[("uatom".to_string(), Decimal::zero())]);
    save_streaming(w, sf);
}
/// the given streaming fee among whatever other fees
pub fn save_streaming(w: &mut World, sf: Option<StreamingFee>) {
    let (a, b) = (spare(w, "mint_fee"), spare(w, "burn_fee"));
    save_fee(w, a, b, sf);
}
/// a streaming fee at rest, with something collected
pub fn spare_streaming(w: &World, now: u64, u: &[(String, Decimal)]) -> Option<StreamingFee> {
    if w.full {
        Some(frozen_streaming(now, u))
    } else {
        None
    }
}
pub fn save_units(w: &mut World, u: &[(String, Decimal)], supply: Uint128) {
    INDEX_UNITS.save(&mut w.st, &u.to_vec().into()).unwrap();
    TOTAL_SUPPLY.save(&mut w.st, &supply).unwrap();
}
pub fn save_fee(w: &mut World, mint_fee: Option<Decimal>, burn_fee: Option<Decimal>, streaming_fee: Option<StreamingFee>) {
    FEE.save(&mut w.st, &Fee { collector: Addr::unchecked(COLL), mint_fee, burn_fee, streaming_fee }).unwrap();
}
pub fn save_rebalance(w: &mut World, manager: Option<&str>, defl: &[(String, Decimal)], infl: &[(String, Decimal)], reserve: &[(String, Decimal)]) {
    REBALANCE
        .save(&mut w.st, &Rebalance { manager: manager.map(Addr::unchecked), deflation: defl.to_vec().into(), inflation: infl.to_vec().into() })
        .unwrap();
    RESERVE_UNITS.save(&mut w.st, &reserve.to_vec().into()).unwrap();
}
pub fn units(w: &World) -> Vec<(String, Decimal)> {
    INDEX_UNITS.load(&w.st).unwrap().into()
}
pub fn reserves(w: &World) -> Vec<(String, Decimal)> {
    RESERVE_UNITS.load(&w.st).unwrap().into()
}
pub fn supply(w: &World) -> Uint128 {
    TOTAL_SUPPLY.load(&w.st).unwrap()
}
pub fn fee_of(w: &World) -> Fee {
    FEE.load(&w.st).unwrap()
}
pub fn addr_s(a: &Option<Addr>) -> &str {
    a.as_ref().map(|x| x.as_str()).unwrap_or("")
}

/// An active streaming fee: any accepted rate, last settled `delta` seconds before `now`.
pub fn active_streaming(now: u64, min_delta: u64, denoms: &[(String, Decimal)], with_collected: bool) -> StreamingFee {
    let delta = u32_in("delta", min_delta as u32, u32::MAX) as u64;
    assume(delta <= now);
    let mut collected = vec![];
    if with_collected {
        for (d, _) in denoms {
            collected.push(coin_of(d, u128_any(&format!("collected_{d}"))));
        }
    }
    StreamingFee { rate: dec_in("rate", 1, MAX_STREAMING), collected, freeze: false, last_collected_at: now - delta }
}
pub fn frozen_streaming(now: u64, denoms: &[(String, Decimal)]) -> StreamingFee {
    let mut s = active_streaming(now, 0, denoms, true);
    s.freeze = true;
    s
}
/// The settlement of a streaming fee as specified: every unit gives up the share
/// (1+rate)^seconds - 1 of itself, rounded down, and what that unit is worth over the whole supply,
/// rounded down, is added to the collected amount. None: not computable.
pub struct Settled {
    pub share: Z,
    pub units: Vec<(String, Z, Z)>,
    pub collected: Vec<(String, Z)>,
}
pub fn settle(u: &[(String, Decimal)], s: Uint128, sf: &StreamingFee, now: u64) -> Option<Settled> {
    let p = tx_opt(|| (Decimal::one() + sf.rate).checked_pow((now - sf.last_collected_at) as u32).ok())?;
    let share = Z::dec(p) - Z::k(ONE);
    let mut units = vec![];
    let mut collected = vec![];
    for (d, x) in u {
        let f = mulf(Z::dec(*x), share);
        units.push((d.clone(), Z::dec(*x) - f, f));
        collected.push((d.clone(), amt_in(&sf.collected, d) + mulf(f, Z::u128(s))));
    }
    Some(Settled { share, units, collected })
}
fn tx_opt<R>(f: impl FnOnce() -> Option<R>) -> Option<R> {
    f()
}

/// Everything the core contract stores, typed.
pub struct Snap {
    pub cfg: Config,
    pub pending: Option<Addr>,
    pub fee: Fee,
    pub supply: Uint128,
    pub units: Vec<(String, Decimal)>,
    pub reb: Option<Rebalance>,
    pub reserve: Option<Vec<(String, Decimal)>>,
    pub trades: Vec<((String, String), TradeInfo)>,
}
pub fn snap(w: &World) -> Snap {
    Snap {
        cfg: CONFIG.load(&w.st).unwrap(),
        pending: PENDING_GOV.may_load(&w.st).unwrap(),
        fee: fee_of(w),
        supply: supply(w),
        units: units(w),
        reb: REBALANCE.may_load(&w.st).unwrap(),
        reserve: RESERVE_UNITS.may_load(&w.st).unwrap().map(|x| x.into()),
        trades: TRADE_INFOS.range(&w.st, None, None, Order::Ascending).map(|x| x.unwrap()).collect(),
    }
}
pub fn same_opt_dec(a: &Option<Decimal>, b: &Option<Decimal>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => Z::dec(*a).eq(Z::dec(*b)),
        (None, None) => true,
        _ => false,
    }
}
pub fn same_opt_u64(a: &Option<u64>, b: &Option<u64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => Z::u64(*a).eq(Z::u64(*b)),
        (None, None) => true,
        _ => false,
    }
}
impl Snap {
    pub fn same_gov(&self, o: &Snap) -> bool {
        self.cfg.gov == o.cfg.gov && self.pending == o.pending
    }
    /// trade information, except of the given pair
    pub fn same_trades_but(&self, o: &Snap, but: (&str, &str)) -> bool {
        let pick = |s: &Snap| -> Vec<usize> { (0..s.trades.len()).filter(|i| (s.trades[*i].0 .0.as_str(), s.trades[*i].0 .1.as_str()) != but).collect() };
        let (a, b) = (pick(self), pick(o));
        let mut r = a.len() == b.len();
        for (i, j) in a.into_iter().zip(b) {
            let ((ka, x), (kb, y)) = (&self.trades[i], &o.trades[j]);
            r &= (ka == kb) & (x.routes == y.routes) & Z::u64(x.cooldown).eq(Z::u64(y.cooldown));
            r &= Z::u128(x.max_trade_amount).eq(Z::u128(y.max_trade_amount)) & same_opt_u64(&x.last_traded_at, &y.last_traded_at);
        }
        r
    }
    pub fn same_trades(&self, o: &Snap) -> bool {
        self.same_trades_but(o, ("", ""))
    }
    pub fn same_pause(&self, o: &Snap) -> bool {
        let gone = |p: &PauseInfo| !p.paused || p.expires_at == Some(LONG_AGO);
        if gone(&self.cfg.paused) && gone(&o.cfg.paused) {
            return true;
        }
        (self.cfg.paused.paused == o.cfg.paused.paused) & same_opt_u64(&self.cfg.paused.expires_at, &o.cfg.paused.expires_at)
    }
    pub fn same_denoms(&self, o: &Snap) -> bool {
        self.cfg.index_denom == o.cfg.index_denom && self.cfg.reserve_denom == o.cfg.reserve_denom
    }
    pub fn same_supply(&self, o: &Snap) -> bool {
        Z::u128(self.supply).eq(Z::u128(o.supply))
    }
    pub fn same_units(&self, o: &Snap) -> bool {
        same_units(&self.units, &o.units)
    }
    /// fee strategy without what the streaming fee accrues
    pub fn same_strategy(&self, o: &Snap) -> bool {
        let mut r = self.fee.collector == o.fee.collector;
        r &= same_opt_dec(&self.fee.mint_fee, &o.fee.mint_fee) & same_opt_dec(&self.fee.burn_fee, &o.fee.burn_fee);
        r &= match (&self.fee.streaming_fee, &o.fee.streaming_fee) {
            (Some(a), Some(b)) => Z::dec(a.rate).eq(Z::dec(b.rate)),
            (None, None) => true,
            _ => false,
        };
        r
    }
    pub fn same_accrual(&self, o: &Snap) -> bool {
        match (&self.fee.streaming_fee, &o.fee.streaming_fee) {
            (Some(a), Some(b)) => same_coins(&a.collected, &b.collected) & (a.freeze == b.freeze) & Z::u64(a.last_collected_at).eq(Z::u64(b.last_collected_at)),
            (None, None) => true,
            _ => false,
        }
    }
    pub fn same_fee(&self, o: &Snap) -> bool {
        self.same_strategy(o) & self.same_accrual(o)
    }
    pub fn same_plan(&self, o: &Snap) -> bool {
        match (&self.reb, &o.reb) {
            (None, None) => true,
            (Some(a), Some(b)) => (a.manager == b.manager) & same_units(&a.deflation, &b.deflation) & same_units(&a.inflation, &b.inflation),
            _ => false,
        }
    }
    pub fn same_reserve(&self, o: &Snap) -> bool {
        match (&self.reserve, &o.reserve) {
            (None, None) => true,
            (Some(a), Some(b)) => same_units(a, b),
            _ => false,
        }
    }
    pub fn same_all(&self, o: &Snap) -> bool {
        self.same_gov(o) & self.same_pause(o) & self.same_denoms(o) & self.same_supply(o) & self.same_units(o) & self.same_fee(o) & self.same_plan(o) & self.same_reserve(o) & self.same_trades(o)
    }
}
/// The messages can be executed in order: the contract's index balance never goes negative, and
/// ends where it began less what was burned or paid in on top.
pub fn index_executable(o: &Out, start: Z) -> bool {
    let mut b = start;
    let mut ok = true;
    for f in &o.flows {
        if f.denom != INDEX {
            continue;
        }
        if matches!(f.kind, Kind::Mint) && f.to == CORE {
            b = b + f.amt
        }
        if matches!(f.kind, Kind::Send | Kind::Burn) && f.from == CORE {
            ok &= f.amt.le(b);
            b = b - f.amt
        }
    }
    ok & b.is0()
}
pub fn only_kinds(o: &Out, ok: fn(&Kind) -> bool) -> bool {
    o.other == 0 && o.replies == 0 && o.flows.iter().all(|f| ok(&f.kind))
}
pub fn opt_str(name: &str, v: &[&str]) -> Option<String> {
    let i = choose(name, v.len() + 1);
    if i == 0 {
        None
    } else {
        Some(v[i - 1].to_string())
    }
}
