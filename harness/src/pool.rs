//! Weighted pools (C34), routes and pools as reported (C36), page limits (C28).
use crate::env::*;
use crate::math::z256;
use crate::sym::*;
use cosmwasm_std::{Coin, Decimal, Uint128, Uint256};
use ibcx_interface::periphery::{extract_pool_ids, RouteKey, SwapInfo, SwapInfoCompact, SwapInfosCompact};
use ibcx_interface::types::{SwapRoute, SwapRoutes};
use osmosis_std::types::osmosis::poolmanager::v1beta1::{EstimateSwapExactAmountInRequest, EstimateSwapExactAmountOutRequest, PoolRequest};
use prost::Message;
use ibcx_pool::{OsmosisPool, Simulator, WeightedPool};

const POOL: u128 = 1_000_000_000_000_000_000_000_000;
/// "uatom", "uosmo" and, in between, "ujuno", with these weights
fn pool(id: &str, atom: Uint128, osmo: Uint128, other: Uint128, weights: (u64, u64), fee: Decimal) -> WeightedPool {
    let asset = |denom: &str, amount: Uint128, w: u64| {
        // through the types' own deserializer
        cosmwasm_std::from_json::<WeightedPool>(
            format!(
                "{{\"@type\":\"t\",\"address\":\"a\",\"id\":\"{id}\",\"future_pool_governor\":\"\",\"pool_params\":{{\"swap_fee\":\"0\",\"exit_fee\":\"0\"}},\"pool_assets\":[{{\"token\":{{\"denom\":\"{denom}\",\"amount\":\"0\"}},\"weight\":\"0\"}}],\"total_shares\":{{\"denom\":\"lp\",\"amount\":\"1\"}},\"total_weight\":\"10\"}}"
            )
            .as_bytes(),
        )
        .map(|mut p| {
            p.pool_assets[0].token.amount = Uint256::from(amount);
            p.pool_assets[0].weight = Uint256::from(w);
            p
        })
        .unwrap()
    };
    let mut p = asset("uatom", atom, weights.0);
    p.pool_assets.append(&mut asset("ujuno", other, 3).pool_assets);
    p.pool_assets.append(&mut asset("uosmo", osmo, weights.1).pool_assets);
    p.pool_params.swap_fee = fee;
    p
}
fn held(p: &WeightedPool, denom: &str) -> Z {
    let l: Vec<_> = p.pool_assets.iter().filter(|a| a.token.denom == denom).collect();
    check(l.len() == 1, "C34.keeps_assets");
    z256(l[0].token.amount)
}
fn weight(p: &WeightedPool, denom: &str) -> Z {
    z256(p.pool_assets.iter().find(|a| a.token.denom == denom).unwrap().weight)
}
struct Case {
    pool: WeightedPool,
    atom: Z,
    osmo: Z,
    other: Z,
    weights: (u64, u64),
    fee: Decimal,
}
fn case(weights: (u64, u64), min: u128) -> Case {
    let (atom, osmo) = (u128_in("atom", min, POOL), u128_in("osmo", min, POOL));
    case_of(weights, atom, osmo, dec_in("fee", 0, ONE / 10 * 9))
}
fn case_of(weights: (u64, u64), atom: Uint128, osmo: Uint128, fee: Decimal) -> Case {
    let other = u128_in("other", 0, POOL);
    Case { pool: pool("7", atom, osmo, other, weights, fee), atom: Z::u128(atom), osmo: Z::u128(osmo), other: Z::u128(other), weights, fee }
}
/// the pool has moved by exactly the swap
fn moved(c: &Case, p: &WeightedPool, into: Z, out: Z) {
    check(p.pool_assets.len() == 3, "C34.keeps_assets");
    check(held(p, "uatom").eq(c.atom + into), "C34.takes_all");
    check(held(p, "uosmo").eq(c.osmo - out) & out.le(c.osmo), "C34.gives_quoted");
    check(held(p, "ujuno").eq(c.other), "C34.others_untouched");
    let same = weight(p, "uatom").eq(Z::u64(c.weights.0)) & weight(p, "uosmo").eq(Z::u64(c.weights.1)) & weight(p, "ujuno").eq(Z::k(3));
    check(same & Z::u128(p.pool_params.swap_fee.atomics()).eq(Z::u128(c.fee.atomics())) & (p.get_id() == 7), "C34.keeps_parameters");
}
fn swap_in(c: &Case, amount: Uint128) -> Option<(WeightedPool, Z)> {
    let w = World::default();
    let d = w.rdeps();
    let mut p = c.pool.clone();
    let f = p.get_spread_factor().unwrap();
    check(Z::u128(f.atomics()).eq(Z::u128(c.fee.atomics())), "C34.fee");
    let r = tx(|| p.swap_exact_amount_in(&d, Coin { denom: "uatom".into(), amount }, "uosmo".into(), Uint256::zero(), f)).ok()?;
    Some((p, z256(r)))
}
fn swap_out(c: &Case, amount: Uint128) -> Option<(WeightedPool, Z)> {
    let w = World::default();
    let d = w.rdeps();
    let mut p = c.pool.clone();
    let f = p.get_spread_factor().unwrap();
    let r = tx(|| p.swap_exact_amount_out(&d, "uatom".into(), Uint256::MAX, Coin { denom: "uosmo".into(), amount }, f)).ok()?;
    Some((p, z256(r)))
}
/// what is left of the input after the fee
fn after_fee(c: &Case, amount: Uint128) -> Z {
    Z::u128(amount) * (Z::k(ONE) - Z::u128(c.fee.atomics())) / Z::k(ONE)
}

/// equal weights, exact input: the constant product
pub fn h_wp_in() {
    let c = case((5, 5), 1);
    let amount = u128_in("amount", 0, POOL);
    let net = after_fee(&c, amount);
    let one = Z::k(ONE);
    match swap_in(&c, amount) {
        Some((p, out)) => {
            reach("C34.in");
            moved(&c, &p, Z::u128(amount), out);
            let after = c.atom + net;
            check((out * after * one).le(c.osmo * net * one + c.osmo * after), "C34.out_at_most");
            check((c.osmo * net + Z::k(1)).le((out + Z::k(1)) * after), "C34.out_at_least");
        }
        // nothing left after the fee, or the pool is less than one part in 10^18 of what it would hold
        None => check(net.eq(Z::k(0)) | (c.atom * one).le(c.atom + net), "C34.accepts_in"),
    }
}
/// equal weights, exact output, up to half the pool
pub fn h_wp_out() {
    let c = case((5, 5), 1);
    let amount = u128_in("amount", 0, POOL);
    let keep = Z::k(ONE) - Z::u128(c.fee.atomics());
    let want = Z::u128(amount);
    let one = Z::k(ONE);
    match swap_out(&c, amount) {
        Some((p, into)) => {
            reach("C34.out");
            moved(&c, &p, into, want);
            check((want + want).le(c.osmo), "C34.refuses_half");
            let left = c.osmo - want;
            // in is the least integer of at least atom*want/left/keep, where want/left loses up to 10^-18
            check((into * left * keep).le(c.atom * want * one + left * keep), "C34.in_at_most");
            check((c.atom * want * one).le((into + Z::k(1)) * left * keep + c.atom * left), "C34.in_at_least");
        }
        None => check(c.osmo.le(want + want), "C34.accepts_out"),
    }
}
/// other weights, small trades: in proportion to the weights
fn proportional(weights: (u64, u64)) {
    let size = [1_000_000, 7_000_000_000_001, ONE, POOL][choose("size", 4)];
    let amount = u128_in("amount", 1, size / 1000);
    let one = Z::k(ONE);
    let (wi, wo) = (Z::u64(weights.0), Z::u64(weights.1));
    // the other side and the fee scale the result: see the entries for equal weights
    let (x, y, fee) = (Uint128::new(size), Uint128::new(ONE), Decimal::new(Uint128::new(ONE / 500)));
    if choose("exact", 2) == 0 {
        let c = case_of(weights, x, y, fee);
        let net = after_fee(&c, amount);
        match swap_in(&c, amount) {
            Some((p, out)) => {
                reach("C34.in_weights");
                moved(&c, &p, Z::u128(amount), out);
                // osmo * wi/wo * net/after, and the second order: at most 1/400 of it
                let after = c.atom + net;
                let first = c.osmo * wi * net;
                let (unit, tol) = (wo * after, c.osmo / Z::k(100_000_000) + Z::k(1));
                check((out * unit * Z::k(400)).le(first * Z::k(401) + tol * unit * Z::k(400)), "C34.out_proportion");
                check((first * Z::k(399)).le((out + tol) * unit * Z::k(400)), "C34.out_proportion");
            }
            // less than some parts in 10^18 of the pool
            None => check((net * Z::k(ONE / 100)).le(c.atom), "C34.accepts_in"),
        }
    } else {
        let c = case_of(weights, y, x, fee);
        let want = Z::u128(amount);
        match swap_out(&c, amount) {
            Some((p, into)) => {
                reach("C34.out_weights");
                moved(&c, &p, into, want);
                let keep = one - Z::u128(c.fee.atomics());
                let left = c.osmo - want;
                let net = into * keep;
                let first = c.atom * wo * want * one;
                let (unit, tol) = (wi * left, (c.atom / Z::k(100_000_000) + Z::k(1)) * one);
                check((net * unit * Z::k(400)).le(first * Z::k(401) + tol * unit * Z::k(400)), "C34.in_proportion");
                check((first * Z::k(399)).le((net + tol) * unit * Z::k(400)), "C34.in_proportion");
            }
            None => check(false, "C34.accepts_out"),
        }
    }
}
pub fn h_wp_80_20() {
    proportional((8, 2))
}
pub fn h_wp_20_80() {
    proportional((2, 8))
}
pub fn h_wp_1_2() {
    proportional((5, 10))
}
/// what a pool does not hold is not swapped
pub fn h_wp_unknown() {
    let c = case((5, 5), 1);
    let amount = u128_in("amount", 0, POOL);
    let w = World::default();
    let d = w.rdeps();
    let (a, b) = if choose("side", 2) == 0 { ("uatom", "uion") } else { ("uion", "uosmo") };
    let mut p = c.pool.clone();
    let r = if choose("exact", 2) == 0 {
        tx(|| p.swap_exact_amount_in(&d, Coin { denom: a.into(), amount }, b.into(), Uint256::zero(), c.fee))
    } else {
        tx(|| p.swap_exact_amount_out(&d, a.into(), Uint256::MAX, Coin { denom: b.into(), amount }, c.fee))
    };
    reach("C34.unknown");
    check(r.is_err(), "C34.refuses_unknown");
}
fn route(from: &str, to: &str, hops: Vec<(u64, &str)>) -> SwapInfo {
    SwapInfo((RouteKey((from.into(), to.into())), SwapRoutes(hops.into_iter().map(|(p, d)| SwapRoute { pool_id: p, token_denom: d.into() }).collect())))
}
/// an estimate over assets that share a pool quotes the later ones from the moved pool,
/// and the next estimate starts from the pools as they are
pub fn h_wp_shared() {
    let c = case((5, 5), 1_000_000);
    let index = u128_in("index", 1, POOL);
    let (u1, u2) = (dec_in("unit_atom", 0, 1000 * ONE), dec_in("unit_juno", 0, 1000 * ONE));
    let w = World::default();
    let d = w.rdeps();
    let mut p = c.pool.clone();
    p.pool_assets[1].weight = Uint256::from(5u64);
    let units = vec![("uatom".to_string(), u1), ("ujuno".to_string(), u2)];
    let pools: Vec<Box<dyn OsmosisPool>> = vec![Box::new(p.clone())];
    let mut q = p.clone();
    let one = Z::k(ONE);
    let (a1, a2) = (Z::u128(index) * Z::u128(u1.atomics()) / one, Z::u128(index) * Z::u128(u2.atomics()) / one);
    if choose("direction", 2) == 0 {
        let info = vec![route("uosmo", "uatom", vec![(7, "uosmo")]), route("uosmo", "ujuno", vec![(7, "uosmo")])];
        let sim = Simulator::new(&d, &pools, &info, &units);
        let want = tx(|| {
            let x = q.swap_exact_amount_out(&d, "uosmo".into(), Uint256::MAX, Coin { denom: "uatom".into(), amount: a1.to_u128() }, c.fee)?;
            let y = q.swap_exact_amount_out(&d, "uosmo".into(), Uint256::MAX, Coin { denom: "ujuno".into(), amount: a2.to_u128() }, c.fee)?;
            Ok::<_, ibcx_pool::PoolError>((z256(x), z256(y)))
        });
        let got = tx(|| sim.estimate_token_given_index_out(index, "uosmo"));
        match (want, got) {
            (Ok((x, y)), Ok(g)) => {
                reach("C34.shared_out");
                check(Z::u128(g.total_spent).eq(x + y), "C34.shared_total");
                let l = g.sim_routes.0;
                check((l.len() == 2) && (Z::u128(l[0].sim_amount_in).eq(x) & Z::u128(l[1].sim_amount_in).eq(y)), "C34.shared_each");
                let again = tx(|| sim.estimate_token_given_index_out(index, "uosmo"));
                check(again.is_ok() && Z::u128(again.unwrap().total_spent).eq(x + y), "C34.starts_afresh");
            }
            (x, y) => check(x.is_err() && y.is_err(), "C34.shared_accepts"),
        }
    } else {
        let info = vec![route("uatom", "uosmo", vec![(7, "uosmo")]), route("ujuno", "uosmo", vec![(7, "uosmo")])];
        let sim = Simulator::new(&d, &pools, &info, &units);
        let want = tx(|| {
            let x = q.swap_exact_amount_in(&d, Coin { denom: "uatom".into(), amount: a1.to_u128() }, "uosmo".into(), Uint256::zero(), c.fee)?;
            let y = q.swap_exact_amount_in(&d, Coin { denom: "ujuno".into(), amount: a2.to_u128() }, "uosmo".into(), Uint256::zero(), c.fee)?;
            Ok::<_, ibcx_pool::PoolError>((z256(x), z256(y)))
        });
        let got = tx(|| sim.estimate_token_given_index_in(index, "uosmo"));
        match (want, got) {
            (Ok((x, y)), Ok(g)) => {
                reach("C34.shared_in");
                check(Z::u128(g.total_received).eq(x + y), "C34.shared_total");
                let l = g.sim_routes.0;
                check((l.len() == 2) && (Z::u128(l[0].sim_amount_out).eq(x) & Z::u128(l[1].sim_amount_out).eq(y)), "C34.shared_each");
                let again = tx(|| sim.estimate_token_given_index_in(index, "uosmo"));
                check(again.is_ok() && Z::u128(again.unwrap().total_received).eq(x + y), "C34.starts_afresh");
            }
            (x, y) => check(x.is_err() && y.is_err(), "C34.shared_accepts"),
        }
    }
}

// C36
fn name(n: &str) -> String {
    letters(n, 1 + choose(n, 3))
}
fn same(a: &str, b: &str) -> bool {
    a.len() == b.len() && a.bytes().zip(b.bytes()).fold(true, |acc, (x, y)| acc & (x == y))
}
/// the compact form says: "from,to" and, in order, "pool,denom"
pub fn h_routes_parse() {
    let (from, to) = (name("from"), name("to"));
    let n = choose("hops", 4);
    // pool numbers as written: one, three or seven digits
    let hops: Vec<(String, Z, String)> = (0..n)
        .map(|i| {
            let (mut v, mut z) = (vec![], Z::k(0));
            for k in 0..[1, 3, 7][choose("digits", 3)] {
                let d = u32_in(&format!("digit{i}_{k}"), 48, 57);
                v.push(d as u8);
                z = z * Z::k(10) + Z::u64(d as u64) - Z::k(48);
            }
            (String::from_utf8(v).unwrap(), z, format!("factory/{}", letters(&format!("denom{i}"), 2)))
        })
        .collect();
    let c = SwapInfoCompact { key: format!("{from},{to}"), routes: hops.iter().map(|h| format!("{},{}", h.0, h.2)).collect() };
    let l: Vec<SwapInfo> = no_panic("C36.parses", || SwapInfosCompact(vec![c.clone(), c]).into());
    reach("C36.parsed");
    check(l.len() == 2, "C36.all_infos");
    for SwapInfo((RouteKey((a, b)), SwapRoutes(r))) in l {
        check(same(&a, &from), "C36.from");
        check(same(&b, &to), "C36.to");
        check(r.len() == n, "C36.hops");
        for (x, y) in r.iter().zip(&hops) {
            check(Z::u64(x.pool_id).eq(y.1), "C36.pool");
            check(same(&x.token_denom, &y.2), "C36.denom");
        }
    }
}
/// a hop whose pool is not a number is not guessed
pub fn h_routes_malformed() {
    let bad = match choose("bad", 4) {
        0 => format!("{},uosmo", letters("x", 2)),
        1 => format!("1{},uosmo", letters("x", 1)),
        2 => ",uosmo".to_string(),
        _ => format!("{},1", letters("x", 3)),
    };
    reach("C36.malformed");
    let r = tx(|| Ok::<SwapInfo, ()>(SwapInfoCompact { key: "uosmo,uatom".into(), routes: vec!["1,uosmo".into(), bad] }.into()));
    check(r.is_err(), "C36.malformed");
}
fn routes(n: usize, any: bool) -> Vec<(u64, String)> {
    let first = choose("first", 3);
    (0..n).map(|i| (if any { u64_in(&format!("pool{i}"), 1, (1 << 21) - 1) } else { [1, 1077, u64::MAX][(i + first) % 3] }, ["uosmo", "uatom", "ujuno"][(i + first) % 3].to_string())).collect()
}
fn given(l: &[(u64, String)]) -> SwapRoutes {
    SwapRoutes(l.iter().map(|h| SwapRoute { pool_id: h.0, token_denom: h.1.clone() }).collect())
}
fn hops_eq(a: &[(u64, String)], b: &[(u64, String)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(true, |acc, (x, y)| acc & Z::u64(x.0).eq(Z::u64(y.0)) & (x.1 == y.1))
}
/// the messages and questions made of a route
pub fn h_routes_messages() {
    // questions go through a text encoding of the number: fixed ones
    let what = choose("what", 2);
    let l = routes(1 + choose("hops", 3), what == 0);
    let r = given(&l);
    let (a, b) = (u128_any("amount"), u128_any("bound"));
    let me = cosmwasm_std::Addr::unchecked("me");
    let give = choose("give", 2) == 0;
    match what {
        0 => {
            let m = if give { r.msg_swap_exact_in(&me, "ustrd", a, b) } else { r.msg_swap_exact_out(&me, "ustrd", a, b) };
            let o = outputs("me", &cosmwasm_std::Response::new().add_message(m));
            reach("C36.message");
            check(o.flows.len() == 1 && o.other == 0, "C36.one_swap");
            let f = &o.flows[0];
            check(if give { matches!(f.kind, Kind::SwapIn) } else { matches!(f.kind, Kind::SwapOut) }, "C36.kind");
            check(f.from == "me" && f.denom == "ustrd", "C36.message_asset");
            check(f.amt.eq(Z::u128(a)) & f.limit.eq(Z::u128(b)), "C36.message_amounts");
            check(hops_eq(&f.route, &l), "C36.message_route");
        }
        _ => {
            let mut w = World::default();
            let got = u128_any("quote");
            let ll = l.clone();
            w.q.stargate = Some(Box::new(move |path, data| {
                let (x, y, hops) = if give {
                    check(path == "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn", "C36.question");
                    let q = EstimateSwapExactAmountInRequest::decode(data).unwrap();
                    (q.token_in, q.pool_id, q.routes.into_iter().map(|r| (r.pool_id, r.token_out_denom)).collect::<Vec<_>>())
                } else {
                    check(path == "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut", "C36.question");
                    let q = EstimateSwapExactAmountOutRequest::decode(data).unwrap();
                    (q.token_out, q.pool_id, q.routes.into_iter().map(|r| (r.pool_id, r.token_in_denom)).collect::<Vec<_>>())
                };
                let (x, d) = parse_coin(&x);
                check(Z::u128(x).eq(Z::u128(a)) & (d == "ustrd"), "C36.question_amount");
                check(Z::u64(y).eq(Z::u64(ll[0].0)), "C36.question_pool");
                check(hops_eq(&hops, &ll), "C36.question_route");
                crate::core_rebalance::json_out(if give { "out" } else { "in" }, got)
            }));
            let c = Coin { denom: "ustrd".into(), amount: a };
            let d = w.rdeps();
            let x = no_panic("C36.asks", || if give { r.sim_swap_exact_in(&d.querier, "me", c) } else { r.sim_swap_exact_out(&d.querier, "me", c) });
            reach("C36.asked");
            check(x.is_ok() && Z::u128(x.unwrap()).eq(Z::u128(got)), "C36.answer");
        }
    }
}
/// the pools to ask for: every one named, once, in order
pub fn h_pool_ids() {
    let ids = [5u64, 1, u64::MAX, 42];
    let n = choose("n", 5);
    let l: Vec<u64> = (0..n).map(|_| ids[choose("id", 4)]).collect();
    let split = choose("split", n + 1);
    let info = |x: &[u64]| SwapInfo((RouteKey(("a".into(), "b".into())), SwapRoutes(x.iter().map(|p| SwapRoute { pool_id: *p, token_denom: "a".into() }).collect())));
    let got = no_panic("C36.pool_ids", || extract_pool_ids(vec![info(&l[..split]), info(&l[split..])]));
    let mut want = l;
    want.sort();
    want.dedup();
    reach("C36.pool_ids");
    check(got == want, "C36.pool_ids");
}
/// pools as the chain reports them
pub fn h_pools() {
    let mut w = World::default();
    let fee = dec_in("fee", 0, ONE - 1);
    let ids = [7u64, 3, 11];
    let first = choose("first", 3);
    let order: Vec<u64> = (0..3).map(|i| ids[(i + first) % 3]).collect();
    let (amount, got) = (u128_in("amount", 1, POOL), u128_in("quote", 0, POOL));
    let give = choose("give", 2) == 0;
    w.q.stargate = Some(Box::new(move |path, data| match path {
        "/osmosis.poolmanager.v1beta1.Query/Pool" => {
            let id = PoolRequest::decode(data).unwrap().pool_id;
            let s = match id {
                7 => format!("{{\"pool\":{{\"@type\":\"/osmosis.gamm.v1beta1.Pool\",\"address\":\"a\",\"id\":\"7\",\"pool_params\":{{\"swap_fee\":\"{fee}\",\"exit_fee\":\"0.000000000000000000\",\"smooth_weight_change_params\":null}},\"future_pool_governor\":\"24h\",\"total_shares\":{{\"denom\":\"gamm/pool/7\",\"amount\":\"100\"}},\"pool_assets\":[{{\"token\":{{\"denom\":\"uatom\",\"amount\":\"1000000000000\"}},\"weight\":\"536870912000000\"}},{{\"token\":{{\"denom\":\"uosmo\",\"amount\":\"3000000000001\"}},\"weight\":\"536870912000000\"}}],\"total_weight\":\"1073741824000000\"}}}}"),
                3 => format!("{{\"pool\":{{\"@type\":\"/osmosis.gamm.poolmodels.stableswap.v1beta1.Pool\",\"address\":\"pool{id}\",\"id\":\"{id}\",\"pool_params\":{{\"swap_fee\":\"{fee}\",\"exit_fee\":\"0\"}},\"future_pool_governor\":\"\",\"total_shares\":{{\"denom\":\"lp\",\"amount\":\"1\"}},\"pool_liquidity\":[],\"scaling_factors\":[],\"scaling_factor_controller\":\"\"}}}}"),
                _ => format!("{{\"pool\":{{\"@type\":\"/osmosis.concentratedliquidity.v1beta1.Pool\",\"address\":\"pool{id}\",\"incentives_address\":\"i\",\"spread_rewards_address\":\"s\",\"id\":\"{id}\",\"current_tick_liquidity\":\"1.0\",\"token0\":\"a\",\"token1\":\"b\",\"current_sqrt_price\":\"1.0\",\"current_tick\":\"1\",\"tick_spacing\":\"100\",\"exponent_at_price_one\":\"-6\",\"spread_factor\":\"{fee}\",\"last_liquidity_update\":\"t\"}}}}"),
            };
            Ok(cosmwasm_std::Binary(s.into_bytes()))
        }
        _ => {
            let (x, y, hops) = if give {
                check(path == "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountIn", "C36.question");
                let q = EstimateSwapExactAmountInRequest::decode(data).unwrap();
                (q.token_in, q.pool_id, q.routes.into_iter().map(|r| (r.pool_id, r.token_out_denom)).collect::<Vec<_>>())
            } else {
                check(path == "/osmosis.poolmanager.v1beta1.Query/EstimateSwapExactAmountOut", "C36.question");
                let q = EstimateSwapExactAmountOutRequest::decode(data).unwrap();
                (q.token_out, q.pool_id, q.routes.into_iter().map(|r| (r.pool_id, r.token_in_denom)).collect::<Vec<_>>())
            };
            let (x, d) = parse_coin(&x);
            check(Z::u128(x).eq(Z::u128(amount)), "C36.question_amount");
            check(hops.len() == 1 && hops[0].0 == y && (y == 3 || y == 11), "C36.question_pool");
            check(if give { d == "uatom" && hops[0].1 == "uosmo" } else { d == "uosmo" && hops[0].1 == "uatom" }, "C36.question_assets");
            crate::core_rebalance::json_out(if give { "out" } else { "in" }, got)
        }
    }));
    let d = w.rdeps();
    let l = match no_panic("C36.pools", || ibcx_pool::query_pools(&d, order.clone())) {
        Ok(l) => l,
        Err(_) => return check(false, "C36.pools"),
    };
    reach("C36.pools");
    check(l.len() == 3, "C36.every_pool");
    for (p, id) in l.into_iter().zip(order) {
        check(p.get_id() == id, "C36.pool_order");
        let kind = match id {
            7 => "weighted_pool",
            3 => "stable_pool",
            _ => "concentrated_liquidity_pool",
        };
        check(p.get_type() == kind || id == 3, "C36.pool_kind");
        let f = p.get_spread_factor();
        check(f.is_ok() && Z::u128(f.unwrap().atomics()).eq(Z::u128(fee.atomics())), "C36.pool_fee");
        let mut p = p;
        let r = tx(|| {
            if give {
                p.swap_exact_amount_in(&d, Coin { denom: "uatom".into(), amount }, "uosmo".into(), Uint256::zero(), fee)
            } else {
                p.swap_exact_amount_out(&d, "uatom".into(), Uint256::MAX, Coin { denom: "uosmo".into(), amount }, fee)
            }
        });
        if id != 7 {
            check(r.is_ok() && z256(r.unwrap()).eq(Z::u128(got)), "C36.pool_quote");
            continue;
        }
        // as a pool of the balances it reported
        let mut q = pool("7", Uint128::new(1_000_000_000_000), Uint128::new(3_000_000_000_001), Uint128::zero(), (536870912000000, 536870912000000), fee);
        let s = tx(|| {
            if give {
                q.swap_exact_amount_in(&d, Coin { denom: "uatom".into(), amount }, "uosmo".into(), Uint256::zero(), fee)
            } else {
                q.swap_exact_amount_out(&d, "uatom".into(), Uint256::MAX, Coin { denom: "uosmo".into(), amount }, fee)
            }
        });
        match (r, s) {
            (Ok(r), Ok(s)) => check(z256(r).eq(z256(s)), "C36.pool_quote"),
            (r, s) => check(r.is_err() && s.is_err(), "C36.pool_quote"),
        }
    }
}
/// a page is at most 30 items, 10 if not said otherwise
pub fn h_limits() {
    let n = u32_in("limit", 0, u32::MAX);
    let said = choose("said", 2) == 1;
    let r = no_panic("C28.limit", || ibcx_interface::range_option::<u64>(None, if said { Some(n) } else { None }, None));
    reach("C28.limit");
    match r {
        Ok((_, l, _)) => {
            check(Z::u64(l as u64).eq(if said { Z::u64(n as u64) } else { Z::k(10) }), "C28.limit");
            check((l <= 30) | !said, "C28.limit")
        }
        Err(_) => check(said && n > 30, "C28.limit"),
    }
}
