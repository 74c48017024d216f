//! Rebalancing: C11-C17, and the solvency of trades (C04).
use crate::core_gov::routes;
use crate::core_util::*;
use ibcx_interface::types::{SwapRoute, SwapRoutes};
use osmosis_std::types::osmosis::poolmanager::v1beta1::{
    EstimateSwapExactAmountInRequest, EstimateSwapExactAmountInResponse, EstimateSwapExactAmountOutRequest, EstimateSwapExactAmountOutResponse,
};
use prost::Message;

/// units and supplies up to 10^27: their products stay amounts
const BIG: u128 = ONE * 1_000_000_000;
type Us = Vec<(String, Decimal)>;
fn us(v: &[(&str, Decimal)]) -> Us {
    v.iter().map(|(d, x)| (d.to_string(), *x)).collect()
}
fn run(w: &mut World, now: u64, sender: &str, m: RebalanceMsg) -> Option<Response> {
    let (env, info) = (env_at(CORE, now), msg_info(sender, vec![]));
    tx(|| execute(w.deps(), env, info, ExecuteMsg::Rebalance(m))).ok()
}
fn deflate_msg(d: &str, amount_out: Uint128, max_amount_in: Uint128) -> RebalanceMsg {
    RebalanceMsg::Trade(RebalanceTradeMsg::Deflate { target_denom: d.into(), amount_out, max_amount_in })
}
fn inflate_msg(d: &str, amount_in: Uint128, min_amount_out: Uint128) -> RebalanceMsg {
    RebalanceMsg::Trade(RebalanceTradeMsg::Inflate { target_denom: d.into(), amount_in, min_amount_out })
}
fn weights(names: &[&str]) -> Us {
    names.iter().map(|n| (n.to_string(), dec_any(&format!("weight_{n}")))).collect()
}

/// C11: a rebalance starts only by governance, on a well-formed plan, and freezes the fee.
pub fn h_init() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, u128::MAX);
    save_config(&mut w, PauseInfo { paused: choose("paused", 2) == 1, expires_at: None });
    save_units(&mut w, &u, u128_any("supply"));
    let sf = match choose("streaming", 3) {
        0 => None,
        1 => Some(frozen_streaming(now, &u)),
        _ => {
            let mut s = frozen_streaming(now, &u);
            s.freeze = false;
            assume(s.last_collected_at == now);
            Some(s)
        }
    };
    save_streaming(&mut w, sf);
    let (a, b) = (dec_any("target0"), dec_any("target1"));
    let defl: Us = match choose("deflation", 6) {
        0 => vec![],
        1 => us(&[("uatom", a)]),
        2 => us(&[("uatom", a), ("uatom", b)]),
        3 => us(&[("uosmo", a), ("uatom", b)]),
        4 => us(&[("unone", a)]),
        _ => us(&[("uatom", a), ("unone", b)]),
    };
    let infl: Us = match choose("inflation", 6) {
        0 => vec![],
        1 => weights(&["unew"]),
        2 => weights(&["unew", "unew"]),
        3 => weights(&["unew", "uusdc"]),
        4 => weights(&["unew", "uatom"]),
        _ => weights(&["uosmo"]),
    };
    let dup = |v: &Us| (0..v.len()).any(|i| (0..i).any(|j| v[i].0 == v[j].0));
    let mut valid = !defl.is_empty() && !infl.is_empty() && !dup(&defl) && !dup(&infl);
    valid &= defl.iter().all(|(d, _)| has(&u, d) && !has(&infl, d));
    for (d, t) in &defl {
        valid &= Z::dec(*t).le(unit_of(&u, d));
    }
    for (_, x) in &infl {
        valid &= !Z::dec(*x).is0();
    }
    let manager = opt_str("manager", &["manager", "!bad"]);
    valid &= manager.as_deref() != Some("!bad");
    let before = snap(&w);
    let m = RebalanceMsg::Init { manager: manager.clone(), deflation: defl.clone(), inflation: infl.clone() };
    let r = no_panic("C11.no_panic", || execute(w.deps(), env_at(CORE, now), msg_info(GOV, vec![]), ExecuteMsg::Rebalance(m)));
    check(r.is_ok() == valid, "C11.iff_valid");
    if let Ok(r) = r {
        reach("C11.init");
        check(outputs(CORE, &r).silent(), "C11.no_payment");
        let after = snap(&w);
        match &after.reb {
            Some(p) => check((addr_s(&p.manager) == manager.as_deref().unwrap_or("")) & same_units(&p.deflation, &defl) & same_units(&p.inflation, &infl), "C11.plan"),
            None => check(false, "C11.plan"),
        }
        match &after.reserve {
            Some(x) => check(x.iter().all(|(_, v)| v.is_zero()), "C11.reserve_empty"),
            None => check(false, "C11.reserve_empty"),
        }
        if let Some(s) = &after.fee.streaming_fee {
            check(s.freeze, "C11.freeze");
            check(same_coins(&s.collected, &before.fee.streaming_fee.as_ref().unwrap().collected), "C11.collected_kept");
        }
        check(after.same_units(&before) & after.same_supply(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_trades(&before) & after.same_strategy(&before), "C11.frame");
    }
}
/// plans of up to three assets on either side: any asset may come twice, on both sides, or not be
/// there to be lowered
pub fn h_init_lists() {
    let mut w = World::default();
    let now = any_now();
    let u = maybe_reversed(any_units("unit", 3, 0, u128::MAX));
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, u128_any("supply"));
    save_spare_fee(&mut w);
    let list = |name: &str, from: &[&str], lo: u128| -> Us {
        (0..1 + choose(&format!("n_{name}"), 3)).map(|i| (from[choose(&format!("{name}{i}"), from.len())].to_string(), dec_in(&format!("{name}_value{i}"), lo, u128::MAX))).collect()
    };
    let side = choose("side", 2);
    let defl = if side == 0 { list("defl", &["uatom", "uosmo", "uusdc", "unone"], 0) } else { us(&[("uosmo", dec_any("target"))]) };
    let infl = if side == 0 { us(&[("unew", dec_any("weight"))]) } else { list("infl", &["unew", "uusdc", "ujuno", "uosmo"], 0) };
    let dup = |v: &Us| (0..v.len()).any(|i| (0..i).any(|j| v[i].0 == v[j].0));
    let mut valid = !dup(&defl) && !dup(&infl) && defl.iter().all(|(d, _)| has(&u, d) && !has(&infl, d));
    for (d, t) in &defl {
        valid &= Z::dec(*t).le(unit_of(&u, d));
    }
    for (_, x) in &infl {
        valid &= !Z::dec(*x).is0();
    }
    let before = snap(&w);
    let m = RebalanceMsg::Init { manager: None, deflation: defl.clone(), inflation: infl.clone() };
    let r = no_panic("C11.lists_no_panic", || execute(w.deps(), env_at(CORE, now), msg_info(GOV, vec![]), ExecuteMsg::Rebalance(m)));
    check(r.is_ok() == valid, "C11.lists_iff_valid");
    if r.is_ok() {
        reach("C11.lists");
        let after = snap(&w);
        match &after.reb {
            Some(p) => check(same_units(&p.deflation, &defl) & same_units(&p.inflation, &infl) & p.manager.is_none(), "C11.lists_plan"),
            None => check(false, "C11.lists_plan"),
        }
        check(after.same_units(&before) & after.same_supply(&before) & after.same_strategy(&before), "C11.lists_frame");
    }
}
/// only governance, and not twice
pub fn h_init_auth() {
    let mut w = World::default();
    let u = any_units("unit", 1, 0, u128::MAX);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, u128_any("supply"));
    save_spare_fee(&mut w);
    let reb = choose("rebalancing", 2) == 1;
    if reb {
        save_rebalance(&mut w, Some("manager"), &us(&[("uatom", dec_any("t"))]), &us(&[("unew", Decimal::one())]), &[]);
    }
    let sender = letters("sender", 3);
    let m = RebalanceMsg::Init { manager: None, deflation: us(&[("uatom", Decimal::zero())]), inflation: us(&[("unew", Decimal::one())]) };
    let r = no_panic("C11.auth_no_panic", || execute(w.deps(), env_at(CORE, 1_700_000_000), msg_info(&sender, vec![]), ExecuteMsg::Rebalance(m)));
    check(r.is_ok() == ((sender == GOV) & !reb), "C11.auth");
    if r.is_ok() {
        reach("C11.auth");
    }
}

/// C12: what is shut while a rebalance is on, and what is open only then.
pub fn h_exclusive() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, ONE * ONE);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, u128_in("supply", 1000, ONE * ONE));
    save_spare_fee(&mut w);
    let reb = choose("rebalancing", 2) == 1;
    if reb {
        let m = [None, Some(GOV), Some("manager")][choose("manager", 3)];
        // from just started, over under way, to done
        let (target, reserve) = match choose("stage", 3) {
            0 => (Decimal::zero(), us(&[])),
            1 => (dec_any("target"), us(&[("unew", dec_any("reserve"))])),
            _ => (u.iter().find(|(d, _)| d == "uosmo").map_or(Decimal::zero(), |(_, x)| *x), us(&[("unew", Decimal::zero())])),
        };
        save_rebalance(&mut w, m, &us(&[("uosmo", target)]), &us(&[("unew", Decimal::one())]), &reserve);
    }
    let k = choose("op", 9);
    let user = if k < 2 { ["alice", GOV, COLL, "manager"][choose("user", 4)] } else { "alice" };
    let (sender, funds, m) = match k {
        0 => (user, vec![coin_of("uatom", Uint128::MAX), coin_of("uosmo", Uint128::MAX)], ExecuteMsg::Mint { amount: u128_in("amount", 1, 1000), receiver: None, refund_to: None }),
        1 => (user, vec![coin_of(INDEX, u128_in("paid", 1, 1000))], ExecuteMsg::Burn { redeem_to: None }),
        2 => (GOV, vec![], ExecuteMsg::Gov(GovMsg::UpdateReserveDenom("unewreserve".into()))),
        3 => (GOV, vec![], ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(FeePayload { collector: "newcoll".into(), mint_fee: None, burn_fee: None, streaming_fee: None }))),
        4 => (GOV, vec![], ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: None, deflation: us(&[("uatom", Decimal::zero())]), inflation: us(&[("unew", Decimal::one())]) })),
        5 => (GOV, vec![], ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(None))),
        6 => (GOV, vec![], ExecuteMsg::Rebalance(deflate_msg("uosmo", Uint128::zero(), Uint128::zero()))),
        7 => (GOV, vec![], ExecuteMsg::Rebalance(inflate_msg("unew", Uint128::zero(), Uint128::zero()))),
        _ => (GOV, vec![], ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})),
    };
    let closed_during = k <= 4;
    let r = tx(|| execute(w.deps(), env_at(CORE, now), msg_info(sender, funds), m));
    if r.is_ok() {
        if closed_during {
            reach("C12.idle_op");
            check(!reb, "C12.closed_while_rebalancing");
        } else {
            reach("C12.rebalance_op");
            check(reb, "C12.needs_rebalance");
        }
    } else if closed_during {
        check(reb, "C12.open_when_idle");
    }
}
/// A whole cycle: start, convert, finalize; mint and burn are shut exactly in between.
pub fn h_cycle() {
    let mut w = World::default();
    let now = any_now();
    assume(now < MAX_SECS - 10);
    let u = us(&[("uosmo", dec_in("unit0", 0, ONE * ONE)), ("uatom", dec_in("unit1", 0, ONE * ONE))]);
    let s0 = u128_in("supply", 1000, ONE * ONE);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, None);
    let t = dec_any("target");
    let mint_ok = |w: &World| {
        let mut w2 = World { st: w.st.clone(), ..Default::default() };
        let funds = units(w).iter().map(|(d, _)| coin_of(d, Uint128::MAX)).collect();
        tx(|| execute(w2.deps(), env_at(CORE, now + 1), msg_info("alice", funds), ExecuteMsg::Mint { amount: Uint128::new(10), receiver: None, refund_to: None })).is_ok()
    };
    check(mint_ok(&w), "C12.before");
    if run(&mut w, now, GOV, RebalanceMsg::Init { manager: None, deflation: us(&[("uosmo", t)]), inflation: us(&[("unew", Decimal::one())]) }).is_none() {
        return;
    }
    check(!mint_ok(&w), "C12.during");
    if run(&mut w, now, "anyone", deflate_msg("uosmo", Uint128::zero(), Uint128::zero())).is_none() {
        return;
    }
    check(!mint_ok(&w), "C12.during");
    let gap = unit_of(&u, "uosmo") - Z::dec(t);
    check(unit_of(&reserves(&w), "unew").eq(gap), "C16.cycle_reserve");
    let f = run(&mut w, now, "anyone", RebalanceMsg::Finalize {});
    // finalizing works only once the reserve is spent (what is worth nothing does not count)
    check(f.is_some() == mulf(gap, Z::u128(s0)).is0(), "C17.cycle_finalize");
    if f.is_some() {
        reach("C12.cycle");
        reach("C17.cycle");
        check(mint_ok(&w), "C12.after");
    } else {
        check(!mint_ok(&w), "C12.during");
    }
}

/// C13: trades and finalization belong to the manager, or to anybody if there is none.
pub fn h_reb_auth() {
    let mut w = World::default();
    let now = any_now();
    let u = us(&[("uosmo", dec_in("unit0", 0, BIG)), ("uatom", dec_in("unit1", 0, BIG))]);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, u128_in("supply", 1, BIG));
    save_spare_fee(&mut w);
    let managed = choose("managed", 2) == 1;
    let k = choose("op", 4);
    let t = unit_of(&u, "uosmo").to_u128();
    let rsv = if k == 1 { us(&[("uosmo", dec_in("reserve", 0, BIG))]) } else { us(&[]) };
    let mut infl = if k == 1 { us(&[("uosmo", Decimal::one())]) } else { us(&[("unew", Decimal::one())]) };
    let mut defl = if k == 1 { us(&[("uatom", Decimal::zero())]) } else { us(&[("uosmo", Decimal::new(t))]) };
    match choose("plan", 3) {
        0 => {}
        1 => {
            infl.push(("ujuno".into(), Decimal::one()));
            defl.push(("uusdc".into(), Decimal::one()))
        }
        _ => {
            infl.insert(0, ("ujuno".into(), Decimal::one()));
            defl.insert(0, ("uusdc".into(), Decimal::one()))
        }
    }
    let u: Us = if has(&defl, "uusdc") { u.into_iter().chain(us(&[("uusdc", Decimal::one())])).collect() } else { u };
    INDEX_UNITS.save(&mut w.st, &u.clone().into()).unwrap();
    save_rebalance(&mut w, if managed { Some("mgr") } else { None }, &defl, &infl, &rsv);
    let mut who = if managed { Some("mgr") } else { None };
    let handed = if k == 3 { 0 } else { choose("handed_over", 4) };
    if handed > 0 {
        who = [None, Some("new"), None, Some(GOV)][handed];
        let r = tx(|| execute(w.deps(), env_at(CORE, now), msg_info(GOV, vec![]), ExecuteMsg::Gov(GovMsg::UpdateRebalanceManager(who.map(|x| x.to_string())))));
        check(r.is_ok(), "C13.handover");
    }
    let m = match k {
        0 => deflate_msg("uosmo", Uint128::zero(), Uint128::zero()),
        1 => inflate_msg("uosmo", Uint128::zero(), Uint128::zero()),
        2 => RebalanceMsg::Finalize {},
        _ => RebalanceMsg::Trade(RebalanceTradeMsg::Deflate { target_denom: "uosmo".into(), amount_out: u128_any("x"), max_amount_in: u128_any("y") }),
    };
    let sender = letters("sender", 2 + choose("len", 3));
    let r = no_panic("C13.no_panic", || execute(w.deps(), env_at(CORE, now), msg_info(&sender, vec![]), ExecuteMsg::Rebalance(m)));
    check(r.is_ok() == who.map_or(true, |m| sender == m), "C13.manager_only");
    if r.is_ok() {
        if who.is_some() {
            reach("C13.managed")
        } else {
            reach("C13.open")
        }
    }
}

pub fn json_out(k: &str, v: Uint128) -> StdResult<Binary> {
    if k == "out" {
        to_json_binary(&EstimateSwapExactAmountInResponse { token_out_amount: v.to_string() })
    } else {
        to_json_binary(&EstimateSwapExactAmountOutResponse { token_in_amount: v.to_string() })
    }
}
struct Trade {
    w: World,
    now: u64,
    u: Us,
    rsv: Us,
    infl: Us,
    target: Decimal,
    s: Uint128,
    ti: TradeInfo,
    sim: Uint128,
    managed: bool,
}
fn any_trade_info(now: u64, rt: SwapRoutes) -> TradeInfo {
    let last = if choose("traded_before", 2) == 1 { Some(u64_in("last_traded_at", 0, now)) } else { None };
    TradeInfo { routes: rt, cooldown: u64_in("cooldown", 0, u64::MAX), max_trade_amount: u128_any("max_trade"), last_traded_at: last }
}
fn two_hops(last: &str) -> SwapRoutes {
    SwapRoutes(vec![SwapRoute { pool_id: 7, token_denom: "umid".into() }, SwapRoute { pool_id: 3, token_denom: last.into() }])
}
fn same_ti(a: &TradeInfo, b: &TradeInfo, last: Option<u64>) -> bool {
    (a.routes == b.routes) & Z::u64(a.cooldown).eq(Z::u64(b.cooldown)) & Z::u128(a.max_trade_amount).eq(Z::u128(b.max_trade_amount)) & same_opt_u64(&a.last_traded_at, &last)
}
fn cooled(ti: &TradeInfo, now: u64) -> bool {
    match ti.last_traded_at {
        Some(l) => (Z::u64(l) + Z::u64(ti.cooldown)).le(Z::u64(now)),
        None => true,
    }
}
fn ratio(a: Z, s: Z) -> Z {
    a * Z::k(ONE) / s
}
/// the split of `x` among the weights: each takes its part of what is left, rounded down
fn split(x: Z, infl: &Us) -> Vec<(String, Z)> {
    let mut total = Z::k(0);
    for (_, wt) in infl {
        total = total + Z::dec(*wt)
    }
    let mut left = x;
    let mut o = vec![];
    for (d, wt) in infl {
        let p = left * Z::dec(*wt) / total;
        o.push((d.clone(), p));
        left = left - p;
        total = total - Z::dec(*wt);
    }
    o
}
/// C14: selling an index asset for the reserve denom
fn deflate_setup(n_infl: usize, hops: usize) -> Trade {
    let mut w = World::default();
    let now = any_now();
    let u = maybe_reversed(us(&[("uatom", dec_any("unit0")), ("uosmo", dec_any("unit1"))]));
    let s = u128_any("supply");
    let target = dec_any("target");
    let infl: Us = ["unew", "ujuno", "uusdc"].iter().take(n_infl).map(|d| (d.to_string(), dec_in(&format!("weight_{d}"), 1, ONE * ONE))).collect();
    let rsv = match choose("reserve?", if n_infl > 1 { 3 } else { 2 }) {
        0 => us(&[]),
        1 => us(&[("unew", dec_any("reserve0"))]),
        _ => us(&[("ujuno", dec_any("reserve1")), ("unew", dec_any("reserve0"))]),
    };
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s);
    save_spare_fee(&mut w);
    let managed = w.full;
    let defl = if w.full { us(&[("uosmo", dec_any("other_target")), ("uatom", target)]) } else { us(&[("uatom", target)]) };
    save_rebalance(&mut w, if managed { Some("mgr") } else { None }, &defl, &infl, &rsv);
    let rt = if hops == 1 { routes(7, RESERVE) } else { two_hops(RESERVE) };
    let ti = any_trade_info(now, rt.clone());
    TRADE_INFOS.save(&mut w.st, ("uatom", RESERVE), &ti).unwrap();
    let sim = u128_any("sim");
    Trade { w, now, u, rsv, infl, target, s, ti, sim, managed }
}
fn deflate_with(mut t: Trade) {
    let (out, max) = (u128_any("amount_out"), u128_any("max_amount_in"));
    let (sim, rt) = (t.sim, t.ti.routes.clone());
    t.w.q.stargate = Some(Box::new(move |_p, data| {
        let q = EstimateSwapExactAmountOutRequest::decode(data).map_err(|_| StdError::generic_err("decode"))?;
        let (a, d) = parse_coin(&q.token_out);
        check((d == RESERVE) & Z::u128(a).eq(Z::u128(out)), "C14.estimate_amount");
        check(q.routes.len() == rt.0.len() && q.routes.iter().zip(&rt.0).all(|(a, b)| a.pool_id == b.pool_id), "C14.estimate_route");
        json_out("in", sim)
    }));
    let sender = letters("sender", 3);
    let before = snap(&t.w);
    let r = match run(&mut t.w, t.now, &sender, deflate_msg("uatom", out, max)) {
        Some(r) => r,
        None => return,
    };
    reach("C14.deflate");
    if t.managed {
        reach("C13.deflate");
        check(sender == "mgr", "C13.trade");
    }
    let s = Z::u128(t.s);
    let (zin, zout) = (Z::u128(sim), Z::u128(out));
    check(cooled(&t.ti, t.now), "C14.cooldown");
    check(zout.le(Z::u128(t.ti.max_trade_amount)), "C14.max_trade");
    check(zin.le(Z::u128(max)), "C14.slippage");
    let cur = unit_of(&t.u, "uatom");
    let gap = mulf(cur - Z::dec(t.target), s);
    check(Z::dec(t.target).le(cur) & zin.le(gap), "C14.within_gap");
    // the swap
    let o = outputs(CORE, &r);
    check(o.other == 0 && o.replies == 0 && o.flows.len() == 1 && matches!(o.flows[0].kind, Kind::SwapOut), "C14.one_swap");
    let f = &o.flows[0];
    check((f.from == CORE) & (f.denom == RESERVE) & f.amt.eq(zout), "C14.buys_reserve");
    check(f.limit.le(zin), "C14.spends_at_most_estimate");
    check(f.limit.eq(zin), "C14.limit_is_estimate");
    check(f.route.len() == t.ti.routes.0.len() && f.route.iter().zip(&t.ti.routes.0).all(|(a, b)| a.0 == b.pool_id), "C14.route");
    // the bookkeeping
    let after = snap(&t.w);
    let cur2 = unit_of(&after.units, "uatom");
    check((cur - cur2).eq(ratio(zin, s)), "C14.unit");
    check(Z::dec(t.target).le(cur2), "C14.not_below_target");
    check(unit_of(&after.units, "uosmo").eq(unit_of(&t.u, "uosmo")) & (after.units.len() == 2), "C14.other_units");
    let rs = after.reserve.clone().unwrap_or_default();
    let mut total = Z::k(0);
    for (d, p) in split(ratio(zout, s), &t.infl) {
        check((unit_of(&rs, &d) - unit_of(&t.rsv, &d)).eq(p), "C14.reserve_split");
        total = total + unit_of(&rs, &d) - unit_of(&t.rsv, &d);
    }
    check(total.eq(ratio(zout, s)), "C14.reserve_total");
    check(after.same_supply(&before) & after.same_fee(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_plan(&before), "C14.frame");
    let ti2 = TRADE_INFOS.load(&t.w.st, ("uatom", RESERVE)).unwrap();
    check(same_ti(&ti2, &t.ti, Some(t.now)), "C14.trade_clock");
    check(after.same_trades_but(&before, ("uatom", RESERVE)), "C14.other_trades");
    // last: what follows a failed obligation is only looked at where it holds
    check(!f.route.is_empty() && f.route[0].1 == "uatom", "C14.sells_target");
}
pub fn h_deflate() {
    let t = deflate_setup(1, 1);
    deflate_with(t)
}
pub fn h_deflate_2() {
    let t = deflate_setup(2, 2);
    deflate_with(t)
}
pub fn h_deflate_3() {
    let t = deflate_setup(3, 1);
    deflate_with(t)
}
pub fn h_deflate_3_2() {
    let t = deflate_setup(3, 2);
    deflate_with(t)
}
/// inside all limits the trade goes through
pub fn h_deflate_live() {
    let mut t = deflate_setup(1, 1);
    let (out, max) = (u128_any("amount_out"), u128_any("max_amount_in"));
    let (sim, s) = (t.sim, Z::u128(t.s));
    let big = Z::k(ONE * ONE);
    assume(Z::k(1).le(s) & s.le(big) & unit_of(&t.u, "uatom").le(big) & Z::u128(out).le(big) & unit_of(&t.rsv, "unew").le(big));
    assume(ratio(Z::u128(out), s).le(big));
    assume(cooled(&t.ti, t.now) & Z::u128(out).le(Z::u128(t.ti.max_trade_amount)) & Z::u128(sim).le(Z::u128(max)));
    let cur = unit_of(&t.u, "uatom");
    assume(Z::dec(t.target).le(cur));
    let gap = mulf(cur - Z::dec(t.target), s);
    assume(gap.le(Z::k(u128::MAX)) & Z::u128(sim).le(gap));
    t.w.q.stargate = Some(Box::new(move |_, _| json_out("in", sim)));
    let r = no_panic("C14.succeeds", || execute(t.w.deps(), env_at(CORE, t.now), msg_info("mgr", vec![]), ExecuteMsg::Rebalance(deflate_msg("uatom", out, max))));
    check(r.is_ok(), "C14.succeeds");
    reach("C14.live");
}

/// C15: buying an index asset with its part of the reserve
fn inflate_setup(hops: usize) -> Trade {
    let mut w = World::default();
    let now = any_now();
    let known = choose("known", 2) == 1;
    let mut u = us(&[("uatom", dec_any("unit0")), ("uosmo", dec_any("unit1"))]);
    if known {
        u.push(("unew".into(), dec_any("unit2")))
    }
    let s = u128_any("supply");
    let mut infl = us(&[("unew", dec_in("w0", 1, u128::MAX)), ("ujuno", dec_in("w1", 1, u128::MAX))]);
    let u = maybe_reversed(u);
    let mut rsv = us(&[("ujuno", dec_any("reserve1")), ("unew", dec_any("reserve0"))]);
    if choose("three", 2) == 1 {
        infl.push(("uusdc".into(), dec_in("w2", 1, u128::MAX)));
        rsv.push(("uusdc".into(), dec_any("reserve2")));
    }
    let rsv = maybe_reversed(rsv);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s);
    save_spare_fee(&mut w);
    let target = dec_any("target");
    let managed = w.full;
    save_rebalance(&mut w, if managed { Some("mgr") } else { None }, &us(&[("uatom", target)]), &infl, &rsv);
    let ti = any_trade_info(now, if hops == 1 { routes(7, "unew") } else { two_hops("unew") });
    TRADE_INFOS.save(&mut w.st, (RESERVE, "unew"), &ti).unwrap();
    let sim = u128_any("sim");
    Trade { w, now, u, rsv, infl, target, s, ti, sim, managed }
}
fn inflate_with(mut t: Trade) {
    let (ain, min) = (u128_any("amount_in"), u128_any("min_amount_out"));
    let (sim, rt) = (t.sim, t.ti.routes.clone());
    t.w.q.stargate = Some(Box::new(move |_p, data| {
        let q = EstimateSwapExactAmountInRequest::decode(data).map_err(|_| StdError::generic_err("decode"))?;
        let (a, d) = parse_coin(&q.token_in);
        check((d == RESERVE) & Z::u128(a).eq(Z::u128(ain)), "C15.estimate_amount");
        check(q.routes.len() == rt.0.len() && q.routes.iter().zip(&rt.0).all(|(a, b)| a.pool_id == b.pool_id && a.token_out_denom == b.token_denom), "C15.estimate_route");
        json_out("out", sim)
    }));
    let sender = letters("sender", 3);
    let before = snap(&t.w);
    let r = match run(&mut t.w, t.now, &sender, inflate_msg("unew", ain, min)) {
        Some(r) => r,
        None => return,
    };
    reach("C15.inflate");
    if t.managed {
        reach("C13.inflate");
        check(sender == "mgr", "C13.trade");
    }
    let s = Z::u128(t.s);
    let (zin, zout) = (Z::u128(ain), Z::u128(sim));
    check(cooled(&t.ti, t.now), "C15.cooldown");
    check(zin.le(Z::u128(t.ti.max_trade_amount)), "C15.max_trade");
    check(Z::u128(min).le(zout), "C15.slippage");
    check(zin.le(mulf(unit_of(&t.rsv, "unew"), s)), "C15.within_reserve");
    let o = outputs(CORE, &r);
    check(o.other == 0 && o.replies == 0 && o.flows.len() == 1 && matches!(o.flows[0].kind, Kind::SwapIn), "C15.one_swap");
    let f = &o.flows[0];
    check((f.from == CORE) & (f.denom == RESERVE) & f.amt.eq(zin), "C15.spends_reserve");
    check(zout.le(f.limit), "C15.receives_at_least_estimate");
    check(f.limit.eq(zout), "C15.limit_is_estimate");
    check(f.route.len() == t.ti.routes.0.len() && f.route.iter().zip(&t.ti.routes.0).all(|(a, b)| a.0 == b.pool_id && a.1 == b.token_denom), "C15.route");
    let after = snap(&t.w);
    check((unit_of(&after.units, "unew") - unit_of(&t.u, "unew")).eq(ratio(zout, s)), "C15.unit");
    for d in ["uatom", "uosmo"] {
        check(unit_of(&after.units, d).eq(unit_of(&t.u, d)), "C15.other_units");
    }
    let rs = after.reserve.clone().unwrap_or_default();
    check((unit_of(&t.rsv, "unew") - unit_of(&rs, "unew")).eq(ratio(zin, s)), "C15.reserve");
    for d in ["ujuno", "uusdc"] {
        check(unit_of(&rs, d).eq(unit_of(&t.rsv, d)), "C15.other_reserve");
    }
    check(after.same_supply(&before) & after.same_fee(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_plan(&before), "C15.frame");
    let ti2 = TRADE_INFOS.load(&t.w.st, (RESERVE, "unew")).unwrap();
    check(same_ti(&ti2, &t.ti, Some(t.now)), "C15.trade_clock");
    check(after.same_trades_but(&before, (RESERVE, "unew")), "C15.other_trades");
}
pub fn h_inflate() {
    let t = inflate_setup(1);
    inflate_with(t)
}
pub fn h_inflate_2() {
    let t = inflate_setup(2);
    inflate_with(t)
}
pub fn h_inflate_live() {
    let mut t = inflate_setup(1);
    let (ain, min) = (u128_any("amount_in"), u128_any("min_amount_out"));
    let (sim, s) = (t.sim, Z::u128(t.s));
    let big = Z::k(ONE * ONE);
    assume(Z::k(1).le(s) & s.le(big) & unit_of(&t.rsv, "unew").le(big) & unit_of(&t.u, "unew").le(big));
    assume(ratio(Z::u128(sim), s).le(big));
    assume(cooled(&t.ti, t.now) & Z::u128(ain).le(Z::u128(t.ti.max_trade_amount)) & Z::u128(min).le(Z::u128(sim)));
    let avail = mulf(unit_of(&t.rsv, "unew"), s);
    assume(avail.le(Z::k(u128::MAX)) & Z::u128(ain).le(avail));
    t.w.q.stargate = Some(Box::new(move |_, _| json_out("out", sim)));
    let r = no_panic("C15.succeeds", || execute(t.w.deps(), env_at(CORE, t.now), msg_info("mgr", vec![]), ExecuteMsg::Rebalance(inflate_msg("unew", ain, min))));
    check(r.is_ok(), "C15.succeeds");
    reach("C15.live");
}
/// two trades in a row keep the cooldown between them
pub fn h_cooldown() {
    let inflating = choose("inflating", 2) == 1;
    let mut w = World::default();
    let now = any_now();
    let dt = u64_in("dt", 0, 1_000_000);
    assume(now + dt < MAX_SECS);
    let s = u128_in("supply", 1, ONE * ONE);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &us(&[("uatom", dec_in("unit0", 0, ONE * ONE))]), s);
    save_spare_fee(&mut w);
    save_rebalance(&mut w, None, &us(&[("uatom", Decimal::zero())]), &us(&[("unew", Decimal::one())]), &us(&[("unew", dec_in("reserve", 0, ONE * ONE))]));
    let cooldown = u64_in("cooldown", 0, 2_000_000);
    let (i, o) = if inflating { (RESERVE, "unew") } else { ("uatom", RESERVE) };
    TRADE_INFOS.save(&mut w.st, (i, o), &TradeInfo { routes: routes(7, o), cooldown, max_trade_amount: u128_any("max"), last_traded_at: None }).unwrap();
    let (a, b) = (u128_any("sim"), u128_any("amount"));
    w.q.stargate = Some(Box::new(move |_, _| json_out(if inflating { "out" } else { "in" }, a)));
    let m = if inflating { inflate_msg("unew", b, Uint128::zero()) } else { deflate_msg("uatom", b, Uint128::MAX) };
    if run(&mut w, now, "anyone", m.clone()).is_none() {
        return;
    }
    if run(&mut w, now + dt, "anyone", m).is_some() {
        if inflating {
            reach("C15.twice");
            check(Z::u64(cooldown).le(Z::u64(dt)), "C15.cooldown_between");
        } else {
            reach("C14.twice");
            check(Z::u64(cooldown).le(Z::u64(dt)), "C14.cooldown_between");
        }
    }
}

/// C16: the reserve denom itself is converted one to one, without a swap.
pub fn h_direct() {
    let mut w = World::default();
    let now = any_now();
    let inflating = choose("inflating", 2) == 1;
    let known = choose("known", 2) == 1;
    let mut u = us(&[("uatom", dec_any("unit0"))]);
    if known || !inflating {
        u.push((RESERVE.into(), dec_any("unit1")))
    }
    let s = u128_any("supply");
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s);
    save_spare_fee(&mut w);
    let (a, b) = (u128_any("arg0"), u128_any("arg1"));
    let target = dec_any("target");
    let x0 = dec_any("reserve0");
    let (defl, infl, rsv) = if inflating {
        (us(&[("uatom", target)]), us(&[(RESERVE, Decimal::one()), ("unew", dec_in("w0", 1, u128::MAX))]), us(&[("unew", x0), (RESERVE, dec_any("reserve1"))]))
    } else {
        (us(&[("uatom", Decimal::zero()), (RESERVE, target)]), ["unew", "ujuno", "uusdc"].iter().take(1 + choose("n_weights", 3)).map(|d| (d.to_string(), dec_in(&format!("w_{d}"), 1, ONE * ONE))).collect(), us(&[("unew", x0)]))
    };
    let manager = if w.full { Some("anyone") } else { None };
    save_rebalance(&mut w, manager, &defl, &infl, &rsv);
    let before = snap(&w);
    let m = if inflating { inflate_msg(RESERVE, a, b) } else { deflate_msg(RESERVE, a, b) };
    let r = match run(&mut w, now, "anyone", m) {
        Some(r) => r,
        None => return,
    };
    check(outputs(CORE, &r).silent(), "C16.no_swap");
    let after = snap(&w);
    let rs = after.reserve.clone().unwrap_or_default();
    let ur = |x: &Us| unit_of(x, RESERVE);
    if inflating {
        reach("C16.inflate");
        check((ur(&after.units) - ur(&u)).eq(ur(&rsv)), "C16.inflate_unit");
        check(ur(&rs).is0(), "C16.inflate_reserve");
        check(unit_of(&rs, "unew").eq(Z::dec(x0)), "C16.inflate_others");
    } else {
        reach("C16.deflate");
        check(ur(&after.units).eq(Z::dec(target)), "C16.deflate_unit");
        let gap = ur(&u) - Z::dec(target);
        let mut total = Z::k(0);
        for (d, p) in split(gap, &infl) {
            let got = unit_of(&rs, &d) - unit_of(&rsv, &d);
            check(got.eq(p), "C16.deflate_split");
            total = total + got
        }
        check(total.eq(gap), "C16.deflate_total");
    }
    check(unit_of(&after.units, "uatom").eq(unit_of(&u, "uatom")), "C16.other_units");
    check(after.same_supply(&before) & after.same_fee(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_trades(&before) & after.same_plan(&before), "C16.frame");
}

/// C17: finalizing
fn worthless(x: Z, s: Z) -> bool {
    mulf(x, s).is0()
}
pub fn h_finalize() {
    let mut w = World::default();
    let now = any_now();
    let u = us(&[("uatom", dec_any("unit0")), ("uosmo", dec_any("unit1")), ("unew", dec_any("unit2"))]);
    let s = u128_any("supply");
    let fz = choose("streaming", 3);
    let sf = if fz == 0 {
        None
    } else {
        let mut x = frozen_streaming(now, &u[..1]);
        x.freeze = fz == 1;
        Some(x)
    };
    save_config(&mut w, PauseInfo { paused: choose("paused", 2) == 1, expires_at: None });
    save_units(&mut w, &u, s);
    save_streaming(&mut w, sf);
    let (t0, t1) = (dec_any("target0"), dec_any("target1"));
    let defl = if choose("n_defl", 2) == 0 { us(&[("uatom", t0)]) } else { us(&[("uosmo", t1), ("uatom", t0)]) };
    let rsv = match choose("n_reserve", 3) {
        0 => us(&[]),
        1 => us(&[("unew", dec_any("reserve0"))]),
        _ => us(&[("unew", dec_any("reserve0")), ("ujuno", dec_any("reserve1"))]),
    };
    save_rebalance(&mut w, None, &defl, &us(&[("unew", Decimal::one()), ("ujuno", Decimal::one())]), &rsv);
    // the vault value of what is left fits an amount
    let zs = Z::u128(s);
    for (d, t) in &defl {
        let gap = Z::ite(Z::dec(*t).le(unit_of(&u, d)), unit_of(&u, d) - Z::dec(*t), Z::k(0));
        assume(mulf(gap, zs).le(Z::k(u128::MAX)));
    }
    for (_, x) in &rsv {
        assume(mulf(Z::dec(*x), zs).le(Z::k(u128::MAX)));
    }
    let mut done = true;
    for (d, t) in &defl {
        let cur = unit_of(&u, d);
        done &= cur.le(Z::dec(*t)) | worthless(cur - Z::dec(*t), zs);
    }
    for (_, x) in &rsv {
        done &= worthless(Z::dec(*x), zs);
    }
    let before = snap(&w);
    let r = no_panic("C17.no_panic", || execute(w.deps(), env_at(CORE, now), msg_info("anyone", vec![]), ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})));
    check(r.is_ok() == done, "C17.iff_done");
    if let Ok(r) = r {
        reach("C17.finalize");
        check(outputs(CORE, &r).silent(), "C17.no_payment");
        check(REBALANCE.may_load(&w.st).unwrap().is_none() && RESERVE_UNITS.may_load(&w.st).unwrap().is_none(), "C17.plan_removed");
        let after = snap(&w);
        for (d, x) in &u {
            check(unit_of(&after.units, d).eq(Z::dec(*x)), "C17.units_kept");
        }
        check(after.units.iter().all(|(_, x)| !x.is_zero()), "C17.no_zero_units");
        if let Some(f) = &after.fee.streaming_fee {
            check(!f.freeze, "C17.unfrozen");
            check(Z::u64(f.last_collected_at).eq(Z::u64(now)), "C17.fee_clock");
            check(same_coins(&f.collected, &before.fee.streaming_fee.as_ref().unwrap().collected), "C17.collected_kept");
        }
        check(after.same_supply(&before) & after.same_strategy(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_trades(&before), "C17.frame");
    }
}
/// The time spent rebalancing is not charged for.
pub fn h_no_fee_for_rebalance() {
    let mut w = World::default();
    let now = any_now();
    let (d1, d2) = (u64_in("rebalance_secs", 0, 1 << 30), u64_in("later_secs", 1, 1 << 30));
    assume(now + d1 + d2 < MAX_SECS);
    let u = us(&[("uosmo", dec_any("unit0")), ("uatom", dec_any("unit1"))]);
    let s = u128_any("supply");
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s);
    let mut sf = active_streaming(now, 0, &u, false);
    sf.last_collected_at = now;
    save_streaming(&mut w, Some(sf.clone()));
    // a plan that is already met
    let t = unit_of(&u, "uosmo").to_u128();
    if run(&mut w, now, GOV, RebalanceMsg::Init { manager: None, deflation: us(&[("uosmo", Decimal::new(t))]), inflation: us(&[("unew", Decimal::one())]) }).is_none() {
        return;
    }
    if run(&mut w, now + d1, "anyone", RebalanceMsg::Finalize {}).is_none() {
        return;
    }
    let u1 = units(&w);
    let now2 = now + d1 + d2;
    let (env, info) = (env_at(CORE, now2), msg_info(COLL, vec![]));
    let r = match tx(|| execute(w.deps(), env, info, ExecuteMsg::Realize {})) {
        Ok(r) => r,
        Err(_) => return,
    };
    reach("C17.no_fee");
    sf.last_collected_at = now + d1;
    let e = match settle(&u1, s, &sf, now2) {
        Some(e) => e,
        None => return,
    };
    let o = outputs(CORE, &r);
    for (d, c) in &e.collected {
        check(o.received(COLL, d).eq(*c), "C17.no_fee_for_rebalance");
    }
}

/// C04: trades and the vault. The swap spends at most its limit and yields at least what it buys.
pub fn h_solvency_trade() {
    let deflating = choose("deflating", 2) == 1;
    let mut t = if deflating { deflate_setup(1, 1) } else { inflate_setup(1) };
    let sim = t.sim;
    let x = u128_any("amount");
    let s = Z::u128(t.s);
    let debts = |w: &World, d: &str| -> Z {
        let mut z = unit_of(&units(w), d) * s;
        if d == RESERVE {
            for (_, r) in reserves(w) {
                z = z + Z::dec(r) * s
            }
        }
        z
    };
    let asset = if deflating { "uatom" } else { "unew" };
    let (b_a, b_r) = (Z::u128(u128_any("balance_asset")), Z::u128(u128_any("balance_reserve")));
    let (sh_a, sh_r) = (Z::u128(u128_any("short_asset")), Z::u128(u128_any("short_reserve")));
    let one = Z::k(ONE);
    assume(debts(&t.w, asset).le(b_a * one + sh_a) & debts(&t.w, RESERVE).le(b_r * one + sh_r));
    t.w.q.stargate = Some(Box::new(move |_, _| json_out(if deflating { "in" } else { "out" }, sim)));
    let m = if deflating { deflate_msg("uatom", x, Uint128::MAX) } else { inflate_msg("unew", x, Uint128::zero()) };
    let r = match run(&mut t.w, t.now, "mgr", m) {
        Some(r) => r,
        None => return,
    };
    reach("C04.trade");
    let o = outputs(CORE, &r);
    if o.flows.len() != 1 {
        check(false, "C04.one_swap");
        return;
    }
    let f = &o.flows[0];
    let (na, nr) = if deflating { (b_a - f.limit, b_r + f.amt) } else { (b_a + f.limit, b_r - f.amt) };
    // units have 18 decimals: the part of a unit below that is worth less than supply * 10^-18
    check(debts(&t.w, asset).lt(na * one + sh_a + s), "C04.trade_asset");
    check(debts(&t.w, RESERVE).lt(nr * one + sh_r + s), "C04.trade_reserve");
    if deflating {
        check(debts(&t.w, RESERVE).le(nr * one + sh_r), "C04.trade_bought");
    } else {
        check(debts(&t.w, asset).le(na * one + sh_a), "C04.trade_bought");
    }
}
/// the same for direct conversions and for finalizing, where nothing may be lost
pub fn h_solvency_direct() {
    let k = choose("op", 3);
    let mut w = World::default();
    let now = any_now();
    let u = us(&[(RESERVE, dec_any("unit0"))]);
    let s = u128_any("supply");
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s);
    save_spare_fee(&mut w);
    let rsv = us(&[(if k == 0 { "unew" } else { RESERVE }, dec_any("reserve0"))]);
    if k == 0 {
        save_rebalance(&mut w, None, &us(&[(RESERVE, dec_any("target"))]), &us(&[("unew", dec_in("w0", 1, ONE * ONE)), ("ujuno", dec_in("w1", 1, ONE * ONE))]), &rsv);
    } else {
        save_rebalance(&mut w, None, &us(&[(RESERVE, dec_any("target"))]), &us(&[(RESERVE, Decimal::one())]), &rsv);
    }
    let debts = |w: &World| -> Z {
        let mut z = unit_of(&units(w), RESERVE);
        for (_, r) in RESERVE_UNITS.may_load(&w.st).unwrap().unwrap_or_default() {
            z = z + Z::dec(r)
        }
        z
    };
    let before = debts(&w);
    let m = match k {
        0 => deflate_msg(RESERVE, Uint128::zero(), Uint128::zero()),
        1 => inflate_msg(RESERVE, Uint128::zero(), Uint128::zero()),
        _ => RebalanceMsg::Finalize {},
    };
    if let Some(r) = run(&mut w, now, "anyone", m) {
        reach("C04.direct");
        check(outputs(CORE, &r).silent(), "C04.direct_silent");
        check(debts(&w).le(before), "C04.direct");
    }
}
