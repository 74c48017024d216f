//! What the core contract reports: C18.
use crate::core_util::*;

fn streaming(mode: usize, now: u64, u: &[(String, Decimal)]) -> Option<StreamingFee> {
    match mode {
        0 => None,
        1 => Some(frozen_streaming(now, u)),
        // nothing may have been collected so far
        _ => Some(active_streaming(now, 0, u, u.len() > 2 || choose("collected?", 2) == 1)),
    }
}
/// asked for the given time from some other block, or for the present
fn ask_at(now: u64) -> (Env, Option<u64>) {
    if choose("time_given", 2) == 1 {
        (env_at(CORE, u64_in("asked_at", 1_600_000_000, MAX_SECS)), Some(now))
    } else {
        (env_at(CORE, now), None)
    }
}
fn setup(n: usize, mode: usize, mint_fee: Option<Decimal>, burn_fee: Option<Decimal>) -> (World, Vec<(String, Decimal)>, Uint128, u64) {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", n, 0, u128::MAX);
    let s = u128_any("supply");
    let sf = streaming(mode, now, &u);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s);
    let other = spare(&w, "other_fee");
    save_fee(&mut w, mint_fee.or(other), burn_fee.or(other), sf);
    (w, u, s, now)
}
fn rerun(w: &World) -> World {
    World { st: w.st.clone(), ..Default::default() }
}

/// executing agrees with simulating, whichever succeeds first
fn sim_mint(n: usize, mode: usize) {
    let fee = opt_dec("mint_fee", 0, ONE);
    let (w, u, s, now) = setup(n, mode, fee, None);
    let amount = u128_any("amount");
    let nf = choose("n_funds", n + 1);
    let mut funds: Vec<Coin> = (0..nf).map(|i| coin_of(DENOMS[i], u128_any(&format!("fund_{}", DENOMS[i])))).collect();
    match choose("order", 3) {
        0 => {}
        1 => funds.reverse(),
        _ => funds.push(coin_of("zalien", u128_any("alien"))),
    }
    let (env, time) = ask_at(now);
    let mut w2 = rerun(&w);
    let q = QueryMsg::SimulateMint { amount, funds: Some(funds.clone()), time };
    let e = ExecuteMsg::Mint { amount, receiver: None, refund_to: Some("bob".into()) };
    let einfo = msg_info("alice", funds.clone());
    let first_query = choose("query_first", 2) == 1;
    let (sim, ex): (StdResult<SimulateMintResponse>, _) = if first_query {
        let q = match tx(|| query(w.rdeps(), env, q)) {
            Ok(b) => from_json(b),
            Err(_) => return,
        };
        assume((Z::u128(s) + Z::u128(amount)).le(Z::k(u128::MAX)));
        (q, no_panic("C18.mint_as_simulated", || execute(w2.deps(), env_at(CORE, now), einfo, e)))
    } else {
        let e = match tx(|| execute(w2.deps(), env_at(CORE, now), einfo, e)) {
            Ok(r) => Ok(r),
            Err(_) => return,
        };
        let q = no_panic("C18.simulate_mint", || query(w.rdeps(), env, q));
        check(q.is_ok(), "C18.simulate_mint");
        match q {
            Ok(b) => (from_json(b), e),
            Err(_) => return,
        }
    };
    check(ex.is_ok(), "C18.mint_as_simulated");
    let (sim, ex) = match (sim, ex) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), _) => return check(false, "C18.simulate_mint"),
        _ => return,
    };
    reach("C18.mint");
    let o = outputs(CORE, &ex);
    for (d, _) in &u {
        check(amt_in(&sim.refund_amount, d).eq(o.received("bob", d)), "C18.mint_refund");
        check(amt_in(&sim.fund_spent, d).eq(amt_in(&funds, d) - o.received("bob", d)), "C18.mint_spent");
    }
    check(sim.refund_amount.iter().chain(&sim.fund_spent).all(|c| has(&u, &c.denom)), "C18.mint_denoms");
    check(Z::u128(sim.mint_amount).eq(o.received("alice", INDEX)), "C18.mint_amount");
}
pub fn h_sim_mint() {
    sim_mint(2, choose("streaming", 2))
}
pub fn h_sim_mint_streaming() {
    sim_mint(1, 2)
}
pub fn h_sim_mint_3() {
    sim_mint(3, 0)
}
pub fn h_sim_mint_streaming_2() {
    sim_mint(2, 2)
}
pub fn h_sim_mint_4() {
    sim_mint(4, 0)
}
pub fn h_sim_mint_streaming_3() {
    sim_mint(3, 2)
}
/// asked without funds, the answer is what has to be paid
pub fn h_sim_mint_need() {
    mint_need(2, choose("streaming", 2))
}
pub fn h_sim_mint_need_3() {
    mint_need(3, 0)
}
pub fn h_sim_mint_need_streaming() {
    mint_need(2, 2)
}
fn mint_need(n: usize, mode: usize) {
    let fee = opt_dec("mint_fee", 0, ONE);
    let (w, u, s, now) = setup(n, mode, fee, None);
    let amount = u128_any("amount");
    assume((Z::u128(s) + Z::u128(amount)).le(Z::k(u128::MAX)));
    let (env, time) = ask_at(now);
    let sim: SimulateMintResponse = match tx(|| query(w.rdeps(), env, QueryMsg::SimulateMint { amount, funds: None, time })) {
        Ok(b) => from_json(b).unwrap(),
        Err(_) => return,
    };
    let mut w2 = rerun(&w);
    let e = ExecuteMsg::Mint { amount, receiver: None, refund_to: Some("bob".into()) };
    let info = msg_info("alice", sim.fund_spent.clone());
    let r = no_panic("C18.need_suffices", || execute(w2.deps(), env_at(CORE, now), info, e));
    check(r.is_ok(), "C18.need_suffices");
    if let Ok(r) = r {
        reach("C18.need");
        let o = outputs(CORE, &r);
        check(u.iter().all(|(d, _)| o.received("bob", d).is0()), "C18.need_exact");
        check(sim.refund_amount.iter().all(|c| c.amount.is_zero()), "C18.need_exact");
        check(Z::u128(sim.mint_amount).eq(o.received("alice", INDEX)), "C18.need_amount");
    }
}
fn sim_burn(n: usize, mode: usize) {
    let fee = opt_dec("burn_fee", 0, ONE);
    let (w, u, _, now) = setup(n, mode, None, fee);
    let amount = u128_any("amount");
    let (env, time) = ask_at(now);
    let mut w2 = rerun(&w);
    let ex = match tx(|| execute(w2.deps(), env_at(CORE, now), msg_info("alice", vec![coin_of(INDEX, amount)]), ExecuteMsg::Burn { redeem_to: None })) {
        Ok(r) => r,
        Err(_) => return,
    };
    let q = no_panic("C18.simulate_burn", || query(w.rdeps(), env, QueryMsg::SimulateBurn { amount, time }));
    check(q.is_ok(), "C18.simulate_burn");
    if let Ok(b) = q {
        reach("C18.burn");
        let sim: SimulateBurnResponse = from_json(b).unwrap();
        let o = outputs(CORE, &ex);
        for (d, _) in &u {
            check(amt_in(&sim.redeem_amount, d).eq(o.received("alice", d)), "C18.burn_redeem");
        }
        check(sim.redeem_amount.iter().all(|c| has(&u, &c.denom)), "C18.burn_denoms");
        check(Z::u128(sim.burn_amount).eq(o.burned(INDEX)), "C18.burn_amount");
    }
}
pub fn h_sim_burn() {
    sim_burn(2, choose("streaming", 2))
}
pub fn h_sim_burn_streaming() {
    sim_burn(1, 2)
}
pub fn h_sim_burn_3() {
    sim_burn(3, 0)
}
pub fn h_sim_burn_streaming_2() {
    sim_burn(2, 2)
}
pub fn h_sim_burn_4() {
    sim_burn(4, 0)
}
pub fn h_sim_burn_streaming_3() {
    sim_burn(3, 2)
}
/// a redemption that simulates is possible
pub fn h_sim_burn_holds() {
    burn_holds(1, choose("streaming", 2))
}
pub fn h_sim_burn_holds_2() {
    burn_holds(2, 0)
}
pub fn h_sim_burn_holds_streaming() {
    burn_holds(1, 2)
}
fn burn_holds(n: usize, mode: usize) {
    let fee = opt_dec("burn_fee", 0, ONE);
    let (w, _, s, now) = setup(n, mode, None, fee);
    let amount = u128_any("amount");
    assume(Z::u128(amount).le(Z::u128(s)) & Z::k(1).le(Z::u128(amount)));
    let (env, time) = ask_at(now);
    if tx(|| query(w.rdeps(), env, QueryMsg::SimulateBurn { amount, time })).is_err() {
        return;
    }
    let mut w2 = rerun(&w);
    let r = no_panic("C18.burn_as_simulated", || execute(w2.deps(), env_at(CORE, now), msg_info("alice", vec![coin_of(INDEX, amount)]), ExecuteMsg::Burn { redeem_to: None }));
    check(r.is_ok(), "C18.burn_as_simulated");
    reach("C18.burn_holds");
}
/// The portfolio and the fees reported for a time are those a settlement at that time produces.
fn reported(n: usize, mode: usize) {
    let (w, u, s, now) = setup(n, mode, opt_dec("mint_fee", 0, ONE), opt_dec("burn_fee", 0, ONE));
    let (env, time) = ask_at(now);
    let mut w2 = rerun(&w);
    let r = match tx(|| execute(w2.deps(), env_at(CORE, now), msg_info(COLL, vec![]), ExecuteMsg::Realize {})) {
        Ok(r) => r,
        Err(_) => return,
    };
    let o = outputs(CORE, &r);
    let (after, before) = (snap(&w2), snap(&w));
    let f: GetFeeResponse = match no_panic("C18.fee", || query(w.rdeps(), env.clone(), QueryMsg::GetFee { time })) {
        Ok(b) => from_json(b).unwrap(),
        Err(_) => return check(false, "C18.fee"),
    };
    reach("C18.reported");
    check((f.collector == before.fee.collector) & same_opt_dec(&f.mint_fee, &before.fee.mint_fee) & same_opt_dec(&f.burn_fee, &before.fee.burn_fee), "C18.fee_strategy");
    match (&f.streaming_fee, &after.fee.streaming_fee) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            check(Z::dec(a.rate).eq(Z::dec(b.rate)) & (a.freeze == b.freeze) & Z::u64(a.last_collected_at).eq(Z::u64(b.last_collected_at)), "C18.fee_streaming");
            for (d, _) in &u {
                check(amt_in(&a.collected, d).eq(o.received(COLL, d)), "C18.fee_collected");
            }
            check(a.collected.iter().all(|c| has(&u, &c.denom)), "C18.fee_denoms");
        }
        _ => check(false, "C18.fee_streaming"),
    }
    // worth of the whole index: representable
    for (_, x) in &after.units {
        assume(mulf(Z::dec(*x), Z::u128(s)).le(Z::k(u128::MAX)));
    }
    let p: GetPortfolioResponse = match no_panic("C18.portfolio", || query(w.rdeps(), env, QueryMsg::GetPortfolio { time })) {
        Ok(b) => from_json(b).unwrap(),
        Err(_) => return check(false, "C18.portfolio"),
    };
    check(same_units(&p.units, &after.units), "C18.portfolio_units");
    check(Z::u128(p.total_supply).eq(Z::u128(s)), "C18.portfolio_supply");
    for (d, x) in &after.units {
        check(amt_in(&p.assets, d).eq(mulf(Z::dec(*x), Z::u128(s))), "C18.portfolio_assets");
    }
    check(p.assets.iter().all(|c| has(&u, &c.denom)), "C18.portfolio_denoms");
}
pub fn h_reported() {
    reported(2, choose("streaming", 2))
}
pub fn h_reported_streaming() {
    reported(1, 2)
}
pub fn h_reported_3() {
    reported(3, 0)
}
pub fn h_reported_streaming_2() {
    reported(2, 2)
}
/// Settings, supply, balances and the plan.
pub fn h_settings() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 1, 0, u128::MAX);
    let s = u128_any("supply");
    let pause = match choose("pause", 3) {
        0 => PauseInfo::default(),
        1 => PauseInfo { paused: true, expires_at: None },
        _ => PauseInfo { paused: true, expires_at: Some(u64_in("expires_at", 0, u64::MAX)) },
    };
    save_config(&mut w, pause);
    let pause = CONFIG.load(&w.st).unwrap().paused;
    save_units(&mut w, &u, s);
    save_spare_fee(&mut w);
    let pending = choose("pending", 2) == 1;
    set_pending(&mut w, if pending { Some("newgov") } else { None });
    let reb = choose("rebalancing", 3);
    let (d, i) = (vec![("uatom".to_string(), dec_any("target"))], vec![("unew".to_string(), dec_any("w0")), ("ujuno".to_string(), dec_any("w1"))]);
    if reb > 0 {
        save_rebalance(&mut w, if reb == 1 { None } else { Some("mgr") }, &d, &i, &[]);
    }
    let bal = u128_any("balance");
    w.q.bank = vec![("alice".into(), INDEX.into(), bal), ("alice".into(), "uatom".into(), Uint128::new(7)), ("bob".into(), INDEX.into(), Uint128::new(9))];
    let env = env_at(CORE, now);
    let ask = |m: QueryMsg| -> Binary {
        let r = no_panic("C18.settings", || query(w.rdeps(), env.clone(), m));
        check(r.is_ok(), "C18.settings");
        match r {
            Ok(b) => b,
            Err(_) => {
                stop();
                unreachable!()
            }
        }
    };
    let x: Uint128 = from_json(ask(QueryMsg::GetBalance { account: "alice".into() })).unwrap();
    check(Z::u128(x).eq(Z::u128(bal)), "C18.balance");
    let x: Uint128 = from_json(ask(QueryMsg::GetTotalSupply {})).unwrap();
    check(Z::u128(x).eq(Z::u128(s)), "C18.supply");
    let time = if choose("time?", 2) == 1 { Some(u64_in("time", 0, MAX_SECS)) } else { None };
    let x: GetConfigResponse = from_json(ask(QueryMsg::GetConfig { time })).unwrap();
    let over = match pause.expires_at {
        Some(e) => e <= time.unwrap_or(now),
        None => false,
    };
    check(x.paused.paused == (pause.paused & !over), "C18.pause");
    check(x.gov == GOV && x.index_denom == INDEX && x.reserve_denom == RESERVE && addr_s(&x.pending_gov) == if pending { "newgov" } else { "" }, "C18.config");
    let x: GetRebalanceResponse = from_json(ask(QueryMsg::GetRebalance {})).unwrap();
    match x.rebalance {
        None => check(reb == 0, "C18.plan"),
        Some(p) => check((reb > 0) & (addr_s(&p.manager) == if reb == 2 { "mgr" } else { "" }) & same_units(&p.deflation, &d) & same_units(&p.inflation, &i), "C18.plan"),
    }
    reach("C18.settings");
}
