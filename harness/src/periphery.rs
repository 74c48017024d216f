//! The periphery contract, end to end with the real core contract: C29-C32, C35.
use crate::core_rebalance::json_out;
use crate::core_util::*;
use ibcx_interface::periphery as p;
use osmosis_std::types::osmosis::poolmanager::v1beta1::{EstimateSwapExactAmountInRequest, EstimateSwapExactAmountOutRequest, PoolRequest};
use prost::Message;
use std::cell::RefCell;
use std::rc::Rc;

pub const PER: &str = "periphery";
pub const USER: &str = "user";
/// the asset paid or received
pub const CASH: &str = "uosmo";
/// units up to 10^27, index amounts up to 10^27: products are amounts
const BIG: u128 = ONE * 1_000_000_000;

fn pool_json(id: u64) -> StdResult<Binary> {
    let s = match id {
        1 | 2 => format!("{{\"pool\":{{\"@type\":\"/osmosis.concentratedliquidity.v1beta1.Pool\",\"address\":\"pool{id}\",\"incentives_address\":\"i\",\"spread_rewards_address\":\"s\",\"id\":\"{id}\",\"current_tick_liquidity\":\"1.0\",\"token0\":\"a\",\"token1\":\"b\",\"current_sqrt_price\":\"1.0\",\"current_tick\":\"1\",\"tick_spacing\":\"100\",\"exponent_at_price_one\":\"-6\",\"spread_factor\":\"0.002\",\"last_liquidity_update\":\"t\"}}}}"),
        3 => format!("{{\"pool\":{{\"@type\":\"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool\",\"address\":\"pool{id}\",\"id\":\"{id}\",\"pool_params\":{{\"swap_fee\":\"0.003\",\"exit_fee\":\"0\"}},\"future_pool_governor\":\"\",\"total_shares\":{{\"denom\":\"lp\",\"amount\":\"1\"}},\"pool_liquidity\":[],\"scaling_factors\":[],\"scaling_factor_controller\":\"\"}}}}"),
        _ => return Err(StdError::generic_err("no pool")),
    };
    Ok(Binary(s.into_bytes()))
}

/// One answered estimate: `exact` amount of `denom` through `pool`, the other side `got`.
#[derive(Clone)]
pub struct Quote {
    pub give: bool,
    pub pool: u64,
    pub denom: String,
    pub other: String,
    pub exact: Z,
    pub got: Z,
}
type Quotes = Rc<RefCell<Vec<Quote>>>;
/// An arbitrary pool; a `consistent` one gives the same question the same answer.
fn answer(qs: &Quotes, max: usize, consistent: bool, mut q: Quote) -> StdResult<Uint128> {
    let mut l = qs.borrow_mut();
    assume(l.len() < max);
    let a = u128_in("quote", 0, BIG);
    q.got = Z::u128(a);
    for x in l.iter() {
        if consistent && x.give == q.give && x.pool == q.pool && x.denom == q.denom && x.other == q.other {
            assume(implies(x.exact.eq(q.exact), x.got.eq(q.got)))
        }
    }
    l.push(q);
    Ok(a)
}

pub struct Chain {
    pub core: Rc<RefCell<World>>,
    pub per: World,
    pub now: u64,
    pub quotes: Quotes,
    pub bal: Vec<(String, String, Z)>,
    /// what swaps gave and took
    pub swapped: usize,
    pub fair: bool,
    /// what a failing message breaks when all swaps fill at their limits
    pub live: &'static str,
}
pub struct Case {
    pub u: Vec<(String, Decimal)>,
    pub infos: p::SwapInfosCompact,
    pub supply: Uint128,
    pub mint_fee: Option<Decimal>,
    pub burn_fee: Option<Decimal>,
}
/// index assets: `CASH` needs no swap, the others go through pools 1 (and 2) or 3
fn case(shape: usize, buying: bool, hops: usize) -> Case {
    let ds: Vec<&str> = match shape {
        0 => vec!["uatom"],
        1 => vec!["uatom", CASH],
        2 => vec![CASH, "uatom"],
        3 => vec!["uatom", "ujuno"],
        _ => vec!["ujuno", CASH, "uatom"],
    };
    let u = ds.iter().enumerate().map(|(i, d)| (d.to_string(), dec_in(&format!("unit{i}"), 1, BIG))).collect();
    let (k, hs): (Vec<String>, Vec<Vec<&str>>) = if buying {
        (vec![format!("{CASH},uatom"), format!("{CASH},ujuno")], vec![["1,uosmo", "2,uusdc", "3,umid"][..hops].to_vec(), vec!["3,uosmo"]])
    } else {
        (vec![format!("uatom,{CASH}"), format!("ujuno,{CASH}")], vec![["3,umid", "2,uusdc", "1,uosmo"][3 - hops..].to_vec(), vec!["3,uosmo"]])
    };
    let infos = p::SwapInfosCompact(k.into_iter().zip(hs).map(|(k, h)| p::SwapInfoCompact::new(&k, &h)).collect());
    Case { u, infos, supply: u128_in("supply", 0, BIG), mint_fee: if buying { opt_dec("mint_fee", 1, ONE - 1) } else { None }, burn_fee: Some(dec_in("burn_fee", 1, ONE - 1)) }
}
/// the pools a swap of `denom` must use, with the denoms named in the message
fn route(buying: bool, denom: &str, hops: usize) -> Vec<(u64, &'static str)> {
    if denom != "uatom" {
        return vec![(3, "uosmo")];
    }
    let all = [(1, "uosmo"), (2, "uusdc"), (3, "umid")];
    let mut r = all[..hops].to_vec();
    if !buying {
        r.reverse()
    }
    r
}
fn same_route(f: &Flow, r: &[(u64, &str)]) -> bool {
    f.route.len() == r.len() && f.route.iter().zip(r).all(|(a, b)| a.0 == b.0 && a.1 == b.1)
}
pub fn chain(c: &Case, max_quotes: usize, consistent: bool) -> Chain {
    let now = any_now();
    let mut w = World::default();
    CONFIG.save(&mut w.st, &config(PauseInfo::default())).unwrap();
    save_units(&mut w, &c.u, c.supply);
    save_fee(&mut w, c.mint_fee, c.burn_fee, None);
    let core = Rc::new(RefCell::new(w));
    let quotes: Quotes = Rc::new(RefCell::new(vec![]));
    let mut per = World::default();
    let (cc, qq) = (core.clone(), quotes.clone());
    per.q.smart = Some(Box::new(move |a, m| {
        if a != CORE {
            return Err(StdError::generic_err("no such contract"));
        }
        let w = cc.borrow();
        query(w.rdeps(), env_at(CORE, now), from_json(m)?).map_err(|_| StdError::generic_err("core query"))
    }));
    per.q.stargate = Some(Box::new(move |path, data| match path {
        "/osmosis.poolmanager.v1beta1.Query/Pool" => pool_json(PoolRequest::decode(data).map_err(|_| StdError::generic_err("decode"))?.pool_id),
        "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn" => {
            let q = EstimateSwapExactAmountInRequest::decode(data).map_err(|_| StdError::generic_err("decode"))?;
            let (a, d) = parse_coin(&q.token_in);
            assume(q.routes.len() == 1);
            let r = &q.routes[0];
            json_out("out", answer(&qq, max_quotes, consistent, Quote { give: true, pool: r.pool_id, denom: d, other: r.token_out_denom.clone(), exact: Z::u128(a), got: Z::k(0) })?)
        }
        "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut" => {
            let q = EstimateSwapExactAmountOutRequest::decode(data).map_err(|_| StdError::generic_err("decode"))?;
            let (a, d) = parse_coin(&q.token_out);
            assume(q.routes.len() == 1);
            let r = &q.routes[0];
            json_out("in", answer(&qq, max_quotes, consistent, Quote { give: false, pool: r.pool_id, denom: d, other: r.token_in_denom.clone(), exact: Z::u128(a), got: Z::k(0) })?)
        }
        _ => Err(StdError::generic_err("unknown path")),
    }));
    Chain { core, per, now, quotes, bal: vec![], swapped: 0, fair: false, live: "C31.succeeds" }
}
impl Chain {
    pub fn get(&self, who: &str, d: &str) -> Z {
        self.bal.iter().find(|b| b.0 == who && b.1 == d).map(|b| b.2).unwrap_or(Z::k(0))
    }
    pub fn add(&mut self, who: &str, d: &str, z: Z) {
        if let Some(b) = self.bal.iter_mut().find(|b| b.0 == who && b.1 == d) {
            b.2 = b.2 + z;
            return;
        }
        self.bal.push((who.into(), d.into(), z))
    }
    /// the periphery pays; without the money the transaction fails
    fn pay(&mut self, d: &str, z: Z) {
        assume(z.le(self.get(PER, d)));
        self.add(PER, d, Z::k(0) - z)
    }
    /// Executes a response of the periphery message by message.
    pub fn run(&mut self, r: &Response) {
        for m in &r.messages {
            check(matches!(m.reply_on, cosmwasm_std::ReplyOn::Never), "C29.plain_messages");
            let mut o = Out { flows: vec![], other: 0, replies: 0 };
            one(PER, &m.msg, &mut o);
            check(o.other == 0, "C29.known_messages");
            let f = match o.flows.first() {
                Some(f) => f,
                None => continue,
            };
            match f.kind {
                Kind::SwapIn => {
                    check(f.from == PER && !f.route.is_empty(), "C29.own_swaps");
                    self.pay(&f.denom, f.amt);
                    let got = if self.fair { f.limit } else { Z::u128(u128_any("swap_out")) };
                    assume(f.limit.le(got));
                    self.add(PER, &f.route[f.route.len() - 1].1, got);
                    self.swapped += 1;
                }
                Kind::SwapOut => {
                    check(f.from == PER && !f.route.is_empty(), "C29.own_swaps");
                    let cost = if self.fair { f.limit } else { Z::u128(u128_any("swap_in")) };
                    assume(cost.le(f.limit));
                    self.pay(&f.route[0].1, cost);
                    self.add(PER, &f.denom, f.amt);
                    self.swapped += 1;
                }
                Kind::Send => {
                    for f in &o.flows {
                        self.pay(&f.denom, f.amt);
                        self.add(&f.to, &f.denom, f.amt);
                    }
                }
                Kind::Execute if f.to == CORE => {
                    let msg: ExecuteMsg = from_json(&f.msg).expect("core message");
                    let mut funds = vec![];
                    for x in &o.flows[1..] {
                        self.pay(&x.denom, x.amt);
                        funds.push(coin_of(&x.denom, x.amt.to_u128()));
                    }
                    let (env, info) = (env_at(CORE, self.now), msg_info(PER, funds));
                    let core = self.core.clone();
                    let r = tx(|| execute(core.borrow_mut().deps(), env, info, msg));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => return self.fails(),
                    };
                    for x in outputs(CORE, &r).flows {
                        if matches!(x.kind, Kind::Send | Kind::Mint) {
                            self.add(&x.to, &x.denom, x.amt)
                        }
                    }
                }
                Kind::Execute if f.to == PER => {
                    check(o.flows.len() == 1, "C29.no_funds_to_self");
                    let msg: p::ExecuteMsg = from_json(&f.msg).expect("periphery message");
                    self.per.q.bank = vec![];
                    for b in &self.bal {
                        if b.0 == PER {
                            assume(b.2.le(Z::k(u128::MAX)));
                            self.per.q.bank.push((PER.into(), b.1.clone(), b.2.to_u128()));
                        }
                    }
                    let (env, info) = (env_at(PER, self.now), msg_info(PER, vec![]));
                    let r = tx(|| ibcx_periphery::contract::execute(self.per.deps(), env, info, msg));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => return self.fails(),
                    };
                    self.run(&r);
                }
                _ => check(false, "C29.known_messages"),
            }
        }
    }
    /// a failing message reverts the transaction
    fn fails(&self) {
        if self.fair {
            check(false, self.live)
        }
        stop()
    }
    fn call(&mut self, funds: Vec<Coin>, m: p::ExecuteMsg) -> Option<Response> {
        for c in &funds {
            self.add(PER, &c.denom, Z::u128(c.amount))
        }
        let (env, info) = (env_at(PER, self.now), msg_info(USER, funds));
        tx(|| ibcx_periphery::contract::execute(self.per.deps(), env, info, m)).ok()
    }
}
fn paid(kind: usize, denom: &str, amt: Uint128) -> Vec<Coin> {
    match kind {
        0 => vec![coin_of(denom, amt)],
        1 => vec![],
        2 => vec![coin_of("xalien", amt)],
        _ => vec![coin_of(denom, amt), coin_of("xalien", u128_any("alien"))],
    }
}
/// the wrong coins are tried in the simplest shape only
fn payment(shape: usize, hops: usize) -> usize {
    if shape == 0 && hops == 1 {
        choose("payment", 4)
    } else {
        0
    }
}
fn swaps(r: &Response) -> Vec<Flow> {
    outputs(PER, r).flows.into_iter().filter(|f| matches!(f.kind, Kind::SwapIn | Kind::SwapOut)).collect()
}

/// C31: an exact amount of index tokens for at most what is paid
fn mint_out(shape: usize, hops: usize) {
    let c = case(shape, true, hops);
    let mut ch = chain(&c, 8, false);
    let amount = u128_in("amount", 0, BIG);
    let pay = u128_in("paid", 0, BIG);
    let kind = payment(shape, hops);
    let m = p::ExecuteMsg::MintExactAmountOut { core_addr: CORE.into(), output_amount: amount, input_asset: CASH.into(), swap_info: c.infos.clone() };
    let r = match ch.call(paid(kind, CASH, pay), m) {
        Some(r) => r,
        None => return,
    };
    reach("C31.mint");
    check(kind == 0, "C31.payment");
    // what is bought and for how much at most
    let am = Z::u128(amount);
    let sw = swaps(&r);
    let mut worst = if has(&c.u, CASH) { mulf(unit_of(&c.u, CASH), am) } else { Z::k(0) };
    check(sw.len() == c.u.iter().filter(|x| x.0 != CASH).count(), "C31.one_swap_per_asset");
    for (d, x) in &c.u {
        if d == CASH {
            continue;
        }
        let f: Vec<_> = sw.iter().filter(|f| &f.denom == d).collect();
        check(f.len() == 1 && matches!(f[0].kind, Kind::SwapOut), "C31.one_swap_per_asset");
        check(f[0].amt.eq(mulf(Z::dec(*x), am)), "C31.buys_deposit");
        check(same_route(f[0], &route(true, d, hops)), "C31.route");
        worst = worst + f[0].limit;
    }
    check(worst.le(Z::u128(pay)), "C31.worst_case_within_payment");
    let s0 = supply(&ch.core.borrow());
    ch.run(&r);
    reach("C31.executed");
    let s1 = supply(&ch.core.borrow());
    check((Z::u128(s1) - Z::u128(s0)).eq(am), "C31.mints_exactly");
    minted(&ch, &c, am, "C31.received", "C31.nothing_left");
}
/// who holds what after a mint of `am` index tokens
fn minted(ch: &Chain, c: &Case, am: Z, got: &str, left: &str) {
    let fee = match c.mint_fee {
        Some(f) => mulf(Z::dec(f), am).max(Z::k(1)),
        None => Z::k(0),
    };
    check(ch.get(USER, INDEX).eq(am - fee), got);
    for b in &ch.bal {
        if b.0 == PER {
            check(b.2.is0(), left);
        }
        check(b.0 == USER || b.0 == PER || b.0 == CORE || (b.0 == COLL && b.1 == INDEX), left);
    }
}
pub fn h_per_mint_out() {
    mint_out(choose("shape", 3), 1 + choose("hops", 3))
}
pub fn h_per_mint_out_2() {
    mint_out(3 + choose("shape", 2), 1)
}

/// the swaps fill at their limits: a payment of at least what the pools quote is enough
pub fn h_per_mint_out_live() {
    let c = case(choose("shape", 3), true, 1);
    let mut ch = chain(&c, 8, false);
    ch.fair = true;
    let amount = u128_in("amount", 1, BIG);
    let am = Z::u128(amount);
    let pay = u128_in("paid", 0, BIG);
    let mut need = Z::k(0);
    for (d, x) in &c.u {
        let dep = mulf(Z::dec(*x), am);
        // a deposit that is not a whole unit cannot be bought
        assume(Z::k(1).le(dep) & dep.le(Z::k(BIG)));
        if d == CASH {
            need = need + dep
        }
    }
    assume((Z::u128(c.supply) + am).le(Z::k(BIG)));
    let m = p::ExecuteMsg::MintExactAmountOut { core_addr: CORE.into(), output_amount: amount, input_asset: CASH.into(), swap_info: c.infos.clone() };
    let q = ch.quotes.clone();
    let (env, info) = (env_at(PER, ch.now), msg_info(USER, vec![coin_of(CASH, pay)]));
    ch.add(PER, CASH, Z::u128(pay));
    // the quotes are only known once they have been asked for
    assume(Z::k(1).le(Z::u128(pay)));
    let r = tx(|| ibcx_periphery::contract::execute(ch.per.deps(), env, info, m));
    for x in q.borrow().iter() {
        need = need + x.got
    }
    match r {
        Ok(r) => {
            reach("C31.live");
            // what is paid beyond the quotes is room for the swaps, in proportion to their quotes
            let qs = q.borrow().clone();
            for f in swaps(&r) {
                let quoted = qs.iter().filter(|x| x.denom == f.denom).fold(Z::k(0), |z, x| z + x.got);
                check((quoted * Z::u128(pay) * Z::k(ONE)).le(((f.limit + Z::k(1)) * Z::k(ONE) + quoted) * need), "C31.shares_out_payment");
            }
            ch.run(&r);
            reach("C31.live_executed");
        }
        Err(_) => {
            reach("C31.refused");
            let little = (Z::u128(pay) + Z::k(1)).le(need) | need.is0();
            // a payment of more than 10^18 times the price is not considered
            check(little | (need * Z::k(ONE)).le(Z::u128(pay)), "C31.refuses_only_too_little");
        }
    }
}

/// C29: who may finish an operation, and what it sends
pub fn h_per_finish() {
    let mut w = World::default();
    let bal = u128_any("balance");
    let other = u128_any("other");
    w.q.bank = vec![(PER.into(), "uother".into(), other), (PER.into(), CASH.into(), bal), (USER.into(), CASH.into(), other)];
    let who = ["user", PER, CORE, "peripherx", ""][choose("sender", 5)];
    let to = ["user", "bob", PER, "!bad"][choose("refund_to", 4)];
    let denom = [CASH, "uother", "unone"][choose("denom", 3)];
    let m = p::ExecuteMsg::FinishOperation { refund_to: to.into(), refund_asset: denom.into() };
    let r = match tx(|| ibcx_periphery::contract::execute(w.deps(), env_at(PER, 1_700_000_000), msg_info(who, vec![]), m)) {
        Ok(r) => r,
        Err(_) => return,
    };
    reach("C29.finish");
    check(who == PER, "C29.only_itself");
    check(to != "!bad", "C29.valid_address");
    let o = outputs(PER, &r);
    let has = match denom {
        CASH => Z::u128(bal),
        "uother" => Z::u128(other),
        _ => Z::k(0),
    };
    check(o.received(to, denom).eq(has), "C29.whole_balance");
    check(only_kinds(&o, |k| matches!(k, Kind::Send)) && o.goes_only_to(&[to]) && o.touches_only(&[denom]), "C29.nothing_else");
}

/// C30: as many index tokens as the payment buys, at least the minimum asked for
fn mint_in(shape: usize, hops: usize, quotes: usize) {
    let c = case(shape, true, hops);
    let mut ch = chain(&c, quotes, false);
    let min = u128_in("min_output", 0, BIG);
    let pay = u128_in("paid", 0, BIG);
    let kind = payment(shape, hops);
    let m = p::ExecuteMsg::MintExactAmountIn { core_addr: CORE.into(), input_asset: CASH.into(), min_output_amount: min, swap_info: c.infos.clone() };
    let r = match ch.call(paid(kind, CASH, pay), m) {
        Some(r) => r,
        None => return,
    };
    reach("C30.mint");
    check(kind == 0, "C30.payment");
    let s0 = supply(&ch.core.borrow());
    let sw = swaps(&r);
    ch.run(&r);
    reach("C30.executed");
    let s1 = supply(&ch.core.borrow());
    let am = Z::u128(s1) - Z::u128(s0);
    check(Z::u128(min).le(am), "C30.at_least_minimum");
    check(sw.len() == c.u.iter().filter(|x| x.0 != CASH).count(), "C30.one_swap_per_asset");
    for (d, x) in &c.u {
        if d == CASH {
            continue;
        }
        let f: Vec<_> = sw.iter().filter(|f| &f.denom == d).collect();
        check(f.len() == 1 && matches!(f[0].kind, Kind::SwapOut), "C30.one_swap_per_asset");
        check(f[0].amt.eq(mulf(Z::dec(*x), am)), "C30.buys_deposit");
        check(same_route(f[0], &route(true, d, hops)), "C30.route");
    }
    minted(&ch, &c, am, "C30.received", "C30.nothing_left");
}
pub fn h_per_mint_in() {
    mint_in(choose("shape", 3), 1, 3)
}
pub fn h_per_mint_in_2() {
    mint_in(3 + choose("shape", 2), 1, 6)
}
pub fn h_per_mint_in_hops() {
    mint_in(choose("shape", 3), 2, 6)
}
pub fn h_per_mint_in_hops_3() {
    mint_in(0, 3, 9)
}

/// C32: redeeming index tokens for one asset
fn sold(c: &Case, sw: &[Flow], burned: Z, hops: usize) {
    // what the core contract pays out for the burned amount
    let fee = c.burn_fee.map(|f| mulf(Z::dec(f), burned)).unwrap_or(Z::k(0));
    check(sw.len() == c.u.iter().filter(|x| x.0 != CASH).count(), "C32.one_swap_per_asset");
    for (d, x) in &c.u {
        if d == CASH {
            continue;
        }
        let f: Vec<_> = sw.iter().filter(|f| &f.denom == d).collect();
        check(f.len() == 1 && matches!(f[0].kind, Kind::SwapIn), "C32.one_swap_per_asset");
        check(f[0].amt.le(mulf(Z::dec(*x), burned - fee)), "C32.sells_at_most_redeemed");
        check(same_route(f[0], &route(false, d, hops)), "C32.route");
    }
}
fn burn_case(shape: usize, hops: usize) -> Case {
    let mut c = case(shape, false, hops);
    c.mint_fee = Some(dec_in("mint_fee", 1, ONE - 1));
    c.burn_fee = opt_dec("burn_fee", 1, ONE - 1);
    c
}
fn burn_in(shape: usize, hops: usize) {
    let c = burn_case(shape, hops);
    let mut ch = chain(&c, 8, false);
    let pay = u128_in("paid", 0, BIG);
    let min = u128_any("min_output");
    let kind = payment(shape, hops);
    let m = p::ExecuteMsg::BurnExactAmountIn { core_addr: CORE.into(), output_asset: CASH.into(), min_output_amount: min, swap_info: c.infos.clone() };
    let r = match ch.call(paid(kind, INDEX, pay), m) {
        Some(r) => r,
        None => return,
    };
    reach("C32.burn_in");
    check(kind == 0, "C32.payment");
    let sw = swaps(&r);
    sold(&c, &sw, Z::u128(pay), hops);
    let s0 = supply(&ch.core.borrow());
    ch.run(&r);
    reach("C32.burn_in_executed");
    let s1 = supply(&ch.core.borrow());
    let fee = c.burn_fee.map(|f| mulf(Z::dec(f), Z::u128(pay))).unwrap_or(Z::k(0));
    check((Z::u128(s0) - Z::u128(s1) + fee).eq(Z::u128(pay)) & ch.get(COLL, INDEX).eq(fee), "C32.burns_payment");
    // the slippage bound, up to one unit per swap and one part in 10^18 of the quoted total
    let got = ch.get(USER, CASH);
    let mut total = if has(&c.u, CASH) { mulf(unit_of(&c.u, CASH), Z::u128(pay)) } else { Z::k(0) };
    for q in ch.quotes.borrow().iter() {
        if q.other == CASH {
            total = total + q.got
        }
    }
    let n = Z::k(1 + c.u.len() as u128);
    check((Z::u128(min) * Z::k(ONE)).le((got + n) * Z::k(ONE) + total), "C32.at_least_minimum");
    check(ch.get(PER, CASH).is0() & ch.get(PER, INDEX).is0(), "C32.nothing_left");
    check(ch.bal.iter().all(|b| b.0 == USER || b.0 == PER || b.0 == CORE || (b.0 == COLL && b.1 == INDEX)), "C32.parties");
}
pub fn h_per_burn_in() {
    burn_in(choose("shape", 3), 1 + choose("hops", 3))
}
pub fn h_per_burn_in_2() {
    burn_in(3 + choose("shape", 2), 1)
}
fn burn_out(shape: usize, hops: usize, quotes: usize) {
    let c = burn_case(shape, hops);
    let mut ch = chain(&c, quotes, false);
    let pay = u128_in("paid", 0, BIG);
    let want = u128_in("output", 0, BIG);
    let kind = payment(shape, hops);
    let m = p::ExecuteMsg::BurnExactAmountOut { core_addr: CORE.into(), output_asset: coin_of(CASH, want), swap_info: c.infos.clone() };
    let r = match ch.call(paid(kind, INDEX, pay), m) {
        Some(r) => r,
        None => return,
    };
    reach("C32.burn_out");
    check(kind == 0, "C32.payment");
    let sw = swaps(&r);
    let s0 = supply(&ch.core.borrow());
    ch.run(&r);
    reach("C32.burn_out_executed");
    let s1 = supply(&ch.core.borrow());
    // what the core contract was given
    let change = ch.get(USER, INDEX);
    let burned = Z::u128(pay) - change;
    let fee = c.burn_fee.map(|f| mulf(Z::dec(f), burned)).unwrap_or(Z::k(0));
    check((Z::u128(s0) - Z::u128(s1) + fee).eq(burned) & ch.get(COLL, INDEX).eq(fee), "C32.change_returned");
    sold(&c, &sw, burned, hops);
    // every swap asks for what the pools quote for it
    for f in &sw {
        let q = ch.quotes.borrow();
        let mut ok = false;
        if hops == 1 {
            for x in q.iter() {
                ok |= x.give & (x.denom == f.denom) & x.exact.eq(f.amt) & x.got.le(f.limit)
            }
            check(ok, "C32.limit_is_quote");
        }
    }
    check(ch.get(PER, CASH).is0() & ch.get(PER, INDEX).is0(), "C32.nothing_left");
    check(ch.bal.iter().all(|b| b.0 == USER || b.0 == PER || b.0 == CORE || (b.0 == COLL && b.1 == INDEX)), "C32.parties");
}
pub fn h_per_burn_out() {
    burn_out(choose("shape", 3), 1, 4)
}
pub fn h_per_burn_out_2() {
    burn_out(3, 1, 8)
}
pub fn h_per_burn_out_hops() {
    burn_out(0, 2, 8)
}
pub fn h_per_burn_out_hops_3() {
    burn_out(0, 3, 9)
}

/// C35: what is simulated is what executing does
impl Chain {
    fn ask(&self, m: p::QueryMsg) -> Option<Binary> {
        tx(|| ibcx_periphery::contract::query(self.per.rdeps(), env_at(PER, self.now), m)).ok()
    }
}
/// the first asset has the unit 1, so that deposits and redemptions tell the index amount
fn first_unit_one(c: &mut Case) {
    c.u[0].1 = Decimal::one();
}
fn listed(l: &[Coin], d: &str) -> Z {
    let x: Vec<_> = l.iter().filter(|x| x.denom == d).collect();
    check(x.len() == 1, "C35.every_asset_once");
    Z::u128(x[0].amount)
}
fn sim_mint_out(shape: usize, hops: usize) {
    let c = case(shape, true, hops);
    let mut ch = chain(&c, 8, true);
    let amount = u128_in("amount", 0, BIG);
    let am = Z::u128(amount);
    let m = p::QueryMsg::SimulateMintExactAmountOut { core_addr: CORE.into(), output_amount: amount, input_asset: CASH.into(), swap_info: c.infos.clone() };
    let r: p::SimulateMintExactAmountOutResponse = match ch.ask(m) {
        Some(r) => from_json(r).expect("simulation"),
        None => return,
    };
    reach("C35.mint_out");
    check(r.swap_result_amount.denom == CASH, "C35.pays_in_asset");
    check(r.mint_spend_amount.len() == c.u.len(), "C35.every_asset_once");
    for (d, x) in &c.u {
        let dep = mulf(Z::dec(*x), am);
        check(listed(&r.mint_spend_amount, d).eq(dep), "C35.deposit");
        // a deposit that is not a whole unit cannot be bought
        assume(Z::k(1).le(dep) & dep.le(Z::k(BIG)));
    }
    assume((Z::u128(c.supply) + am).le(Z::k(BIG)));
    let pay = r.swap_result_amount.amount;
    assume(Z::k(1).le(Z::u128(pay)));
    ch.fair = true;
    ch.live = "C35.payment_suffices";
    let m = p::ExecuteMsg::MintExactAmountOut { core_addr: CORE.into(), output_amount: amount, input_asset: CASH.into(), swap_info: c.infos.clone() };
    let x = match ch.call(vec![coin_of(CASH, pay)], m) {
        Some(x) => x,
        None => {
            check(false, "C35.payment_suffices");
            return;
        }
    };
    ch.run(&x);
    reach("C35.mint_out_executed");
    let got = ch.get(USER, INDEX);
    check(Z::u128(r.mint_amount).le(got) & got.le(Z::u128(r.mint_amount) + Z::k(1)), "C35.minted");
}
pub fn h_per_sim_mint_out() {
    sim_mint_out(choose("shape", 3), 1 + choose("hops", 3))
}
pub fn h_per_sim_mint_out_2() {
    sim_mint_out(3 + choose("shape", 2), 1)
}
fn sim_burn_in(shape: usize, hops: usize) {
    let c = burn_case(shape, hops);
    let mut ch = chain(&c, 8, true);
    let amount = u128_in("amount", 1, BIG);
    let am = Z::u128(amount);
    let m = p::QueryMsg::SimulateBurnExactAmountIn { core_addr: CORE.into(), input_amount: amount, output_asset: CASH.into(), swap_info: c.infos.clone() };
    let r: p::SimulateBurnExactAmountInResponse = match ch.ask(m) {
        Some(r) => from_json(r).expect("simulation"),
        None => return,
    };
    reach("C35.burn_in");
    check(r.swap_result_amount.denom == CASH, "C35.pays_in_asset");
    check(r.burn_redeem_amount.len() == c.u.len(), "C35.every_asset_once");
    // what the core contract burns and pays
    let net = am - c.burn_fee.map(|f| mulf(Z::dec(f), am)).unwrap_or(Z::k(0));
    check(Z::u128(r.burn_amount).le(net) & net.le(Z::u128(r.burn_amount) + Z::k(1)), "C35.burned");
    for (d, x) in &c.u {
        let l = listed(&r.burn_redeem_amount, d);
        check(l.le(mulf(Z::dec(*x), net)) & mulf(Z::dec(*x), net - Z::k(1)).le(l), "C35.redeemed");
        // an asset of which nothing is redeemed cannot be sold
        assume(Z::k(1).le(l) & l.le(Z::k(BIG)));
    }
    let min = r.swap_result_amount.amount;
    assume(Z::k(1).le(Z::u128(min)) & am.le(Z::u128(c.supply)));
    ch.fair = true;
    ch.live = "C35.output_reached";
    let m = p::ExecuteMsg::BurnExactAmountIn { core_addr: CORE.into(), output_asset: CASH.into(), min_output_amount: min, swap_info: c.infos.clone() };
    let x = match ch.call(vec![coin_of(INDEX, amount)], m) {
        Some(x) => x,
        None => {
            check(false, "C35.output_reached");
            return;
        }
    };
    ch.run(&x);
    reach("C35.burn_in_executed");
    check(Z::u128(min).le(ch.get(USER, CASH)), "C35.output");
}
pub fn h_per_sim_burn_in() {
    sim_burn_in(choose("shape", 3), 1 + choose("hops", 3))
}
pub fn h_per_sim_burn_in_2() {
    sim_burn_in(3 + choose("shape", 2), 1)
}
fn sim_mint_in(shape: usize, hops: usize, quotes: usize) {
    let mut c = case(shape, true, hops);
    first_unit_one(&mut c);
    let mut ch = chain(&c, quotes, true);
    let pay = u128_in("paid", 0, BIG);
    let m = p::QueryMsg::SimulateMintExactAmountIn { core_addr: CORE.into(), input_asset: coin_of(CASH, pay), swap_info: c.infos.clone() };
    let r: p::SimulateMintExactAmountInResponse = match ch.ask(m) {
        Some(r) => from_json(r).expect("simulation"),
        None => return,
    };
    reach("C35.mint_in");
    check(r.swap_result_amount.denom == CASH, "C35.pays_in_asset");
    check(r.mint_spend_amount.len() == c.u.len(), "C35.every_asset_once");
    let cost = r.swap_result_amount.amount;
    check(Z::u128(cost).le(Z::u128(pay)), "C35.within_payment");
    // the index amount minted, before the fee
    let am = listed(&r.mint_spend_amount, &c.u[0].0);
    for (d, x) in &c.u {
        let dep = mulf(Z::dec(*x), am);
        check(listed(&r.mint_spend_amount, d).eq(dep), "C35.deposit");
        assume(Z::k(1).le(dep) & dep.le(Z::k(BIG)));
    }
    assume((Z::u128(c.supply) + am).le(Z::k(BIG)) & Z::k(1).le(Z::u128(cost)));
    ch.fair = true;
    ch.live = "C35.payment_suffices";
    let m = p::ExecuteMsg::MintExactAmountOut { core_addr: CORE.into(), output_amount: am.to_u128(), input_asset: CASH.into(), swap_info: c.infos.clone() };
    let x = match ch.call(vec![coin_of(CASH, cost)], m) {
        Some(x) => x,
        None => {
            check(false, "C35.payment_suffices");
            return;
        }
    };
    ch.run(&x);
    reach("C35.mint_in_executed");
    check(Z::u128(r.mint_amount).le(ch.get(USER, INDEX)), "C35.promised_is_minted");
}
pub fn h_per_sim_mint_in() {
    sim_mint_in(choose("shape", 3), 1, 3)
}
pub fn h_per_sim_mint_in_2() {
    sim_mint_in(3, 1, 6)
}
pub fn h_per_sim_mint_in_hops() {
    sim_mint_in(0, 2, 6)
}
fn sim_burn_out(shape: usize, hops: usize, quotes: usize) {
    let mut c = burn_case(shape, hops);
    first_unit_one(&mut c);
    let ch = chain(&c, quotes, true);
    let want = u128_in("output", 0, BIG);
    let m = p::QueryMsg::SimulateBurnExactAmountOut { core_addr: CORE.into(), output_asset: coin_of(CASH, want), swap_info: c.infos.clone() };
    let r: p::SimulateBurnExactAmountOutResponse = match ch.ask(m) {
        Some(r) => from_json(r).expect("simulation"),
        None => return,
    };
    reach("C35.burn_out");
    check(r.swap_result_amount.denom == CASH, "C35.pays_in_asset");
    check(r.burn_redeem_amount.len() == c.u.len(), "C35.every_asset_once");
    check(Z::u128(r.swap_result_amount.amount).le(Z::u128(want)), "C35.within_wanted");
    // what the core contract pays for the burned amount
    let burned = Z::u128(r.burn_amount);
    let net = burned - c.burn_fee.map(|f| mulf(Z::dec(f), burned)).unwrap_or(Z::k(0));
    for (d, x) in &c.u {
        let l = listed(&r.burn_redeem_amount, d);
        check(l.le(mulf(Z::dec(*x), net)), "C35.redeems_at_most");
        check(mulf(Z::dec(*x), net - Z::k(1)).le(l), "C35.redeemed");
    }
    // the output is what the pools quote for an index amount that the burned amount redeems,
    // up to two units and one part in 10^18 (asked for a single asset only)
    let mut ok = false;
    let u = |d: &str| Z::dec(c.u.iter().find(|x| x.0 == d).expect("unit").1);
    for q in ch.quotes.borrow().iter() {
        if q.denom == c.u[0].0 {
            let e = q.exact;
            let total = q.got + if has(&c.u, CASH) { mulf(u(CASH), e) } else { Z::k(0) };
            let near = (e * Z::k(ONE)).le((net + Z::k(2)) * Z::k(ONE) + e);
            ok |= total.eq(Z::u128(r.swap_result_amount.amount)) & (near | (c.u.len() > 1))
        }
    }
    if c.u.len() - has(&c.u, CASH) as usize == 1 && hops == 1 && c.u[0].0 != CASH {
        check(ok, "C35.burn_pays_for_output")
    }
}
pub fn h_per_sim_burn_out() {
    sim_burn_out(choose("shape", 3), 1, 3)
}
pub fn h_per_sim_burn_out_2() {
    sim_burn_out(3, 1, 4)
}
pub fn h_per_sim_burn_out_hops() {
    sim_burn_out(0, 2, 6)
}
pub fn h_per_sim_mint_in_deep() {
    sim_mint_in(choose("shape", 3), 1, 4)
}
pub fn h_per_sim_burn_out_deep() {
    sim_burn_out(choose("shape", 3), 1, 4)
}
