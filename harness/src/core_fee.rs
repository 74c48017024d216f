//! Solvency, streaming fee accrual, payout and strategy: C04, C06, C07, C08.
use crate::core_util::*;

const OP: [&str; 5] = ["mint", "burn", "realize", "init", "strategy"];

/// Calls one of the operations that settle the streaming fee; `x` is the index amount moved.
fn op(w: &mut World, k: usize, now: u64, u: &[(String, Decimal)], x: Uint128, funds: &[Coin]) -> StdResult<Response> {
    op_by(w, k, now, u, x, funds, false)
}
fn op_by(w: &mut World, k: usize, now: u64, u: &[(String, Decimal)], x: Uint128, funds: &[Coin], other: bool) -> StdResult<Response> {
    let (sender, f, m) = match OP[k] {
        // the same operations with everything optional given
        "mint" if other => (GOV, funds.to_vec(), ExecuteMsg::Mint { amount: x, receiver: Some(COLL.into()), refund_to: Some("bob".into()) }),
        "burn" if other => (GOV, vec![coin_of(INDEX, x)], ExecuteMsg::Burn { redeem_to: Some("bob".into()) }),
        "init" if other => (
            GOV,
            vec![],
            ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: Some("manager".into()), deflation: vec![(u[0].0.clone(), Decimal::zero())], inflation: vec![("unew".into(), Decimal::one())] }),
        ),
        "strategy" if other => {
            let s = StreamingFeePayload { rate: Decimal::new(Uint128::new(5)), freeze: false };
            (GOV, vec![], ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(FeePayload { collector: COLL.into(), mint_fee: None, burn_fee: None, streaming_fee: Some(s) })))
        }
        "mint" => ("alice", funds.to_vec(), ExecuteMsg::Mint { amount: x, receiver: None, refund_to: None }),
        "burn" => ("alice", vec![coin_of(INDEX, x)], ExecuteMsg::Burn { redeem_to: None }),
        "realize" => (COLL, vec![], ExecuteMsg::Realize {}),
        "init" => (
            GOV,
            vec![],
            ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: None, deflation: vec![(u[0].0.clone(), Decimal::zero())], inflation: vec![("unew".into(), Decimal::one())] }),
        ),
        _ => (GOV, vec![], ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(FeePayload { collector: "newcoll".into(), mint_fee: None, burn_fee: None, streaming_fee: None }))),
    };
    let (env, info) = (env_at(CORE, now), msg_info(sender, f));
    tx(|| execute(w.deps(), env, info, m)).map_err(|_| StdError::generic_err("rejected"))
}
fn any_funds(u: &[(String, Decimal)]) -> Vec<Coin> {
    let mut v: Vec<Coin> = u.iter().map(|(d, _)| coin_of(d, u128_any(&format!("fund_{d}")))).collect();
    v.sort_by(|a, b| a.denom.cmp(&b.denom));
    v
}

/// Every settling operation charges exactly the compounded fee for the time since the last one.
fn accrue(k: usize, n: usize, with_collected: bool) {
    let mut w = World::default();
    let now = any_now();
    let u = maybe_reversed(any_units("unit", n, 0, u128::MAX));
    let s0 = u128_any("supply");
    let x = u128_any("amount");
    let sf = active_streaming(now, 0, &u, with_collected);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, Some(sf.clone()));
    let funds = if k == 0 { any_funds(&u) } else { vec![] };
    let other = choose("other", 2) == 1;
    let r = match op_by(&mut w, k, now, &u, x, &funds, other) {
        Ok(r) => r,
        Err(_) => return,
    };
    reach("C06.accrue");
    let o = outputs(CORE, &r);
    let e = match settle(&u, s0, &sf, now) {
        Some(e) => e,
        None => {
            check(false, "C06.settled");
            return;
        }
    };
    let after = units(&w);
    check(after.len() == u.len(), "C06.same_assets");
    for (d, x, f) in &e.units {
        check(has(&after, d) & unit_of(&after, d).eq(*x), "C06.unit");
        check(f.le(unit_of(&u, d)), "C06.not_more_than_all");
    }
    let sf2 = fee_of(&w).streaming_fee;
    // what was taken is owed to the collector: kept as collected, or paid out
    let mut owed_ok = true;
    for (d, c) in &e.collected {
        let kept = sf2.as_ref().map(|s| coin_amt(&s.collected, d)).unwrap_or(Z::k(0));
        owed_ok &= (kept + o.received(COLL, d)).eq(*c);
    }
    check(owed_ok, "C06.collected");
    for (i, (d, c)) in e.collected.iter().enumerate() {
        // the collector never gets more than what left the units
        let taken = (*c - coin_amt(&sf.collected, d)) * Z::k(ONE);
        check(taken.le(e.units[i].2 * Z::u128(s0)), "C06.conserved");
    }
    if let Some(s) = sf2 {
        check(Z::u64(s.last_collected_at).eq(Z::u64(now)), "C06.clock");
        check((OP[k] == "strategy") | Z::dec(s.rate).eq(Z::dec(sf.rate)), "C06.rate");
        check(s.freeze == (OP[k] == "init"), "C06.freeze");
    }
}
pub fn h_accrue() {
    let k = choose("op", 5);
    accrue(k, 1, choose("collected?", 2) == 1)
}
pub fn h_accrue_2() {
    let k = choose("op", 5);
    accrue(k, 2, true)
}
/// What has been collected may be listed in another order than the portfolio, and may include
/// assets that have left it since or miss new ones: every asset is credited with its own fee.
pub fn h_accrue_order() {
    let k = [1, 2, 4][choose("op", 3)];
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, u128::MAX);
    let s0 = u128_any("supply");
    let x = u128_any("amount");
    let mut sf = active_streaming(now, 0, &[], false);
    // names that begin alike
    let gone = ["uat", "uatomx"][choose("gone", 2)];
    let c = |d: &str| coin_of(d, u128_any(&format!("collected_{d}")));
    sf.collected = match choose("collected", 4) {
        0 => vec![c(&u[1].0), c(&u[0].0)],
        1 => vec![c(gone), c(&u[0].0)],
        2 => vec![c(&u[1].0), c(gone)],
        _ => vec![c(gone)],
    };
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, Some(sf.clone()));
    let r = match op(&mut w, k, now, &u, x, &[]) {
        Ok(r) => r,
        Err(_) => return,
    };
    reach("C06.accrue_order");
    let o = outputs(CORE, &r);
    let e = match settle(&u, s0, &sf, now) {
        Some(e) => e,
        None => return,
    };
    let sf2 = fee_of(&w).streaming_fee;
    let owed = |d: &str| sf2.as_ref().map(|s| coin_amt(&s.collected, d)).unwrap_or(Z::k(0)) + o.received(COLL, d);
    for (d, c) in &e.collected {
        check(owed(d).eq(*c), "C06.own_fee");
    }
    check(owed(gone).eq(coin_amt(&sf.collected, gone)), "C06.keeps_what_left");
}
/// The clock of a fee starts when it is set or unfrozen: the time before is not charged.
pub fn h_accrue_restart() {
    let mut w = World::default();
    let now = any_now();
    let later = now + u32_in("later", 0, u32::MAX) as u64;
    assume(later <= MAX_SECS);
    let u = any_units("unit", 1, 0, u128::MAX);
    let s0 = u128_any("supply");
    let how = choose("how", 3);
    let old = match how {
        0 => None,
        _ => Some(frozen_streaming(now, &[])),
    };
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, old.clone());
    let rate = match (&old, how) {
        (Some(f), 2) => f.rate,
        _ => dec_in("new_rate", 1, MAX_STREAMING),
    };
    let m = if how == 2 {
        // a rebalance with nothing left to trade
        save_rebalance(&mut w, None, &[(u[0].0.clone(), u[0].1)], &[("unew".into(), Decimal::one())], &[]);
        ExecuteMsg::Rebalance(RebalanceMsg::Finalize {})
    } else {
        ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(FeePayload { collector: COLL.into(), mint_fee: None, burn_fee: None, streaming_fee: Some(StreamingFeePayload { rate, freeze: false }) }))
    };
    if tx(|| execute(w.deps(), env_at(CORE, now), msg_info(GOV, vec![]), m)).is_err() {
        return;
    }
    let u1 = units(&w);
    check(same_units(&u, &u1) | (how == 2), "C06.restart_free");
    let r = match op(&mut w, 2, later, &u1, Uint128::zero(), &[]) {
        Ok(r) => r,
        Err(_) => return,
    };
    reach("C06.accrue_restart");
    let o = outputs(CORE, &r);
    let from = StreamingFee { rate, collected: vec![], freeze: false, last_collected_at: now };
    let had = old.as_ref().map(|f| f.collected.clone()).unwrap_or_default();
    if let Some(e) = settle(&u1, s0, &from, later) {
        let after = units(&w);
        for (d, x, _) in &e.units {
            check(unit_of(&after, d).eq(*x), "C06.restart_unit");
        }
        for (d, c) in &e.collected {
            check(o.received(COLL, d).eq(*c + coin_amt(&had, d)), "C06.restart_collected");
        }
    }
}
/// A frozen streaming fee, and one settled in the same second, charge nothing.
pub fn h_accrue_none() {
    let k = choose("op", 5);
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, u128::MAX);
    let s0 = u128_any("supply");
    let x = u128_any("amount");
    let funds = if k == 0 { any_funds(&u) } else { vec![] };
    let mut sf = frozen_streaming(now, &u);
    let frozen = choose("frozen?", 2) == 1;
    if !frozen {
        sf.freeze = false;
        assume(sf.last_collected_at == now);
    }
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, Some(sf.clone()));
    if let Ok(r) = op(&mut w, k, now, &u, x, &funds) {
        reach("C06.accrue_none");
        let o = outputs(CORE, &r);
        check(same_units(&u, &units(&w)), "C06.unit_unchanged");
        let sf2 = fee_of(&w).streaming_fee;
        for (d, _) in &u {
            let kept = sf2.as_ref().map(|s| coin_amt(&s.collected, d)).unwrap_or(Z::k(0));
            check((kept + o.received(COLL, d)).eq(coin_amt(&sf.collected, d)), "C06.collected_unchanged");
        }
        if let Some(s) = sf2 {
            check(Z::u64(s.last_collected_at).eq(Z::u64(sf.last_collected_at)), "C06.clock_unchanged");
            check(s.freeze == (frozen || OP[k] == "init"), "C06.freeze_kept");
        }
    }
}
/// As long as the compounded share is at most all of the index, settling never blocks anybody.
pub fn h_accrue_live() {
    live(false)
}
/// The same after 31 600 000 seconds at the highest rate, where the share is more than that.
pub fn h_accrue_over100() {
    live(true)
}
fn live(over: bool) {
    let k = 1 + choose("op", 4);
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 1, if over { 1000 } else { 0 }, ONE * ONE);
    let s0 = u128_in("supply", 1, ONE * 1_000_000_000);
    // what the vault holds is a representable amount
    assume(mulf(unit_of(&u, DENOMS[0]), Z::u128(s0)).le(Z::k(ONE * ONE * 10)));
    let sf = if over {
        StreamingFee { rate: Decimal::new(Uint128::new(MAX_STREAMING)), collected: vec![], freeze: false, last_collected_at: now - 31_600_000 }
    } else {
        active_streaming(now, 0, &[], false)
    };
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, Some(sf.clone()));
    let x = u128_in("amount", 1, u128::MAX);
    assume(Z::u128(x).le(Z::u128(s0)));
    if !over {
        match settle(&u, s0, &sf, now) {
            Some(e) => assume(e.share.le(Z::k(ONE))),
            None => return,
        }
    }
    let m = match OP[k] {
        "burn" => (vec![coin_of(INDEX, x)], "alice", ExecuteMsg::Burn { redeem_to: None }),
        "realize" => (vec![], COLL, ExecuteMsg::Realize {}),
        "init" => (
            vec![],
            GOV,
            ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: None, deflation: vec![(u[0].0.clone(), Decimal::zero())], inflation: vec![("unew".into(), Decimal::one())] }),
        ),
        _ => (vec![], GOV, ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(FeePayload { collector: "newcoll".into(), mint_fee: None, burn_fee: None, streaming_fee: None }))),
    };
    if over {
        let r = no_panic("C06.live_over100", || execute(w.deps(), env_at(CORE, now), msg_info(m.1, m.0), m.2));
        check(r.is_ok(), "C06.live_over100");
    } else {
        let r = no_panic("C06.live", || execute(w.deps(), env_at(CORE, now), msg_info(m.1, m.0), m.2));
        check(r.is_ok(), "C06.live");
        reach("C06.live");
    }
}

/// assets that have left the portfolio with some of their fee still to be paid out
const GONE: [&str; 4] = ["ugone1", "ugone2", "ugone3", "ugone4"];
/// Realize: only the collector, exactly what has been collected, once.
pub fn h_realize() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, u128::MAX);
    let s0 = u128_any("supply");
    let mode = choose("streaming", 3);
    let sf = match mode {
        0 => None,
        1 => Some(frozen_streaming(now, &u)),
        _ => Some(active_streaming(now, 0, &u, true)),
    };
    let gone = sf.is_some() && choose("collected_gone?", 2) == 1;
    let sf = sf.map(|mut s| {
        if gone {
            s.collected.reverse();
            s.collected.insert(0, coin_of("ugone", u128_any("collected_gone")));
            for (i, d) in GONE.iter().enumerate() {
                s.collected.push(coin_of(d, Uint128::new(i as u128 + 1)))
            }
        }
        s
    });
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, sf.clone());
    let before = snap(&w);
    let sender = ["alice", COLL, GOV, "collecto", "collectorx"][choose("sender", 5)];
    let r = tx(|| execute(w.deps(), env_at(CORE, now), msg_info(sender, vec![]), ExecuteMsg::Realize {}));
    let r = match r {
        Ok(r) => r,
        Err(_) => return,
    };
    reach("C07.realize");
    check(sender == COLL, "C07.collector_only");
    let o = outputs(CORE, &r);
    check(o.goes_only_to(&[COLL]) & only_kinds(&o, |k| matches!(k, Kind::Send)), "C07.only_to_collector");
    let after = snap(&w);
    for (d, _) in &u {
        let due = match &sf {
            None => Z::k(0),
            Some(s) => {
                let mut c = coin_amt(&s.collected, d);
                if !s.freeze && mode == 2 {
                    if let Some(e) = settle(&u, s0, s, now) {
                        // nothing is added when no time has passed
                        c = e.collected.iter().find(|x| &x.0 == d).unwrap().1
                    }
                }
                c
            }
        };
        check(o.spent(CORE, d).eq(due), "C07.exact");
    }
    check(o.flows.iter().all(|f| f.denom.is_empty() || has(&u, &f.denom) || (gone && (f.denom == "ugone" || GONE.contains(&f.denom.as_str())))), "C07.no_other_denom");
    if let Some(s) = &sf {
        for d in GONE.iter().chain(&["ugone"]) {
            check(o.received(COLL, d).eq(coin_amt(&s.collected, d)), "C07.exact_gone");
        }
    }
    if let Some(s) = &after.fee.streaming_fee {
        check(u.iter().all(|(d, _)| coin_amt(&s.collected, d).is0()) & (s.collected.len() == 0), "C07.zeroed");
    }
    check(after.same_strategy(&before) & after.same_supply(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_trades(&before) & after.same_plan(&before), "C07.frame");
    // a second time in the same block pays nothing
    let r2 = tx(|| execute(w.deps(), env_at(CORE, now), msg_info(COLL, vec![]), ExecuteMsg::Realize {}));
    if let Ok(r2) = r2 {
        let o2 = outputs(CORE, &r2);
        check(u.iter().all(|(d, _)| o2.spent(CORE, d).is0()) & o2.spent(CORE, "ugone").is0(), "C07.once");
    }
}
/// With nothing to settle the collector can always collect.
pub fn h_realize_live() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, u128::MAX);
    let sf = if choose("streaming", 2) == 0 { None } else { Some(frozen_streaming(now, &u)) };
    // not while rebalancing only: a rebalance freezes the fee but leaves the collected amount
    if choose("rebalancing", 2) == 1 {
        save_rebalance(&mut w, None, &u[..1], &[("unew".into(), Decimal::one())], &[]);
    }
    let p = PauseInfo { paused: choose("paused", 2) == 1, expires_at: None };
    save_config(&mut w, p);
    save_units(&mut w, &u, u128_any("supply"));
    save_streaming(&mut w, sf);
    let r = no_panic("C07.succeeds", || execute(w.deps(), env_at(CORE, now), msg_info(COLL, vec![]), ExecuteMsg::Realize {}));
    check(r.is_ok(), "C07.succeeds");
    reach("C07.live");
}
/// Changing the fee strategy never loses what the previous one collected.
pub fn h_strategy_payout() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, u128::MAX);
    let s0 = u128_any("supply");
    let active = choose("active", 2) == 1;
    let mut sf = if active { active_streaming(now, 0, &u, true) } else { frozen_streaming(now, &u) };
    if choose("collected_order", 2) == 1 {
        sf.collected.reverse();
        sf.collected.insert(1, coin_of("ugone", u128_any("collected_gone")));
        for (i, d) in GONE.iter().enumerate() {
            sf.collected.push(coin_of(d, Uint128::new(i as u128 + 1)))
        }
    }
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    save_streaming(&mut w, Some(sf.clone()));
    let coll = ["newcoll", COLL][choose("new_collector", 2)];
    let nsf = if choose("new_streaming", 2) == 1 { Some(StreamingFeePayload { rate: dec_in("new_rate", 1, MAX_STREAMING), freeze: choose("new_freeze", 2) == 1 }) } else { None };
    let p = FeePayload { collector: coll.into(), mint_fee: opt_dec("new_mint_fee", 1, ONE - 1), burn_fee: None, streaming_fee: nsf };
    let r = tx(|| execute(w.deps(), env_at(CORE, now), msg_info(GOV, vec![]), ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(p))));
    if let Ok(r) = r {
        reach("C07.strategy");
        let o = outputs(CORE, &r);
        let kept = fee_of(&w).streaming_fee.map(|s| s.collected).unwrap_or_default();
        let mut due: Vec<(String, Z)> = sf.collected.iter().map(|c| (c.denom.clone(), coin_amt(&sf.collected, &c.denom))).collect();
        if active {
            match settle(&u, s0, &sf, now) {
                Some(e) => {
                    due.retain(|x| x.0 == "ugone" || GONE.contains(&x.0.as_str()));
                    due.extend(e.collected)
                }
                None => return,
            }
        }
        check(o.flows.iter().all(|f| f.denom.is_empty() || due.iter().any(|x| x.0 == f.denom)), "C07.strategy_denoms");
        for (d, had) in &due {
            let had = *had;
            let stays = if coll == COLL { coin_amt(&kept, d) } else { Z::k(0) };
            check((o.received(COLL, d) + stays).eq(had), "C07.strategy_keeps");
            check((o.spent(CORE, d) + coin_amt(&kept, d)).eq(had), "C07.strategy_exact");
        }
        check(o.goes_only_to(&[COLL]), "C07.strategy_to_collector");
    }
}

/// C08: the rates the contract accepts
fn opt_any(name: &str) -> Option<Decimal> {
    opt_dec(name, 0, u128::MAX)
}
fn valid(p: &FeePayload) -> bool {
    let one = Z::k(ONE);
    let in01 = |d: &Option<Decimal>| match d {
        Some(d) => !Z::dec(*d).is0() & Z::dec(*d).lt(one),
        None => true,
    };
    let st = match &p.streaming_fee {
        Some(s) => !Z::dec(s.rate).is0() & Z::dec(s.rate).le(Z::k(MAX_STREAMING)),
        None => true,
    };
    in01(&p.mint_fee) & in01(&p.burn_fee) & st
}
fn any_payload() -> FeePayload {
    let sf = if choose("streaming?", 2) == 1 { Some(StreamingFeePayload { rate: dec_any("streaming_rate"), freeze: choose("freeze", 2) == 1 }) } else { None };
    FeePayload { collector: ["newcoll", "!bad"][choose("collector", 2)].into(), mint_fee: opt_any("mint_fee"), burn_fee: opt_any("burn_fee"), streaming_fee: sf }
}
fn stored_as_given(f: &Fee, p: &FeePayload, now: u64) -> bool {
    let mut r = f.collector == p.collector.as_str();
    r &= same_opt_dec(&f.mint_fee, &p.mint_fee) & same_opt_dec(&f.burn_fee, &p.burn_fee);
    r &= match (&f.streaming_fee, &p.streaming_fee) {
        (Some(a), Some(b)) => Z::dec(a.rate).eq(Z::dec(b.rate)) & (a.freeze == b.freeze) & Z::u64(a.last_collected_at).eq(Z::u64(now)),
        (None, None) => true,
        _ => false,
    };
    r
}
pub fn h_fee_update() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 1, 0, u128::MAX);
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, u128_any("supply"));
    save_spare_fee(&mut w);
    let p = any_payload();
    let pm = p.clone();
    let r = no_panic("C08.update_no_panic", || execute(w.deps(), env_at(CORE, now), msg_info(GOV, vec![]), ExecuteMsg::Gov(GovMsg::UpdateFeeStrategy(pm))));
    check(r.is_ok() == (valid(&p) & (p.collector != "!bad")), "C08.update_iff_valid");
    if r.is_ok() {
        reach("C08.update");
        check(stored_as_given(&fee_of(&w), &p, now), "C08.update_stored");
        let c = fee_of(&w).streaming_fee.map(|s| s.collected.len()).unwrap_or(0);
        check(c == 0, "C08.update_starts_empty");
    }
}
pub fn h_fee_instantiate() {
    let mut w = World::default();
    let now = any_now();
    let p = any_payload();
    let m = InstantiateMsg { gov: "gov".into(), fee: p.clone(), index_denom: "index".into(), index_units: vec![("uatom".into(), dec_any("unit"))], reserve_denom: RESERVE.into() };
    let r = no_panic("C08.instantiate_no_panic", || instantiate(w.deps(), env_at(CORE, now), msg_info("creator", vec![]), m));
    check(r.is_ok() == (valid(&p) & (p.collector != "!bad")), "C08.instantiate_iff_valid");
    if r.is_ok() {
        reach("C08.instantiate");
        check(stored_as_given(&fee_of(&w), &p, now), "C08.instantiate_stored");
    }
}

/// C04: what the contract owes, times 10^18: every index token its share of the units, and the
/// collector what has been collected.
fn owed(u: &[(String, Decimal)], s: Uint128, fee: &Fee, d: &str) -> Z {
    let c = fee.streaming_fee.as_ref().map(|f| coin_amt(&f.collected, d)).unwrap_or(Z::k(0));
    unit_of(u, d) * Z::u128(s) + c * Z::k(ONE)
}
fn solvency(n: usize, k: usize, streaming: bool) {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", n, 0, u128::MAX);
    let s0 = u128_any("supply");
    let sf = if streaming { Some(active_streaming(now, 0, &u, true)) } else { Some(frozen_streaming(now, &u)) };
    let x = u128_any("amount");
    let funds = if k == 0 { any_funds(&u) } else { vec![] };
    let (mf, bf) = (if k == 0 { opt_dec("mint_fee", 1, ONE - 1) } else { None }, if k == 1 { opt_dec("burn_fee", 1, ONE - 1) } else { None });
    save_config(&mut w, PauseInfo::default());
    save_units(&mut w, &u, s0);
    let other = spare(&w, "other_fee");
    save_fee(&mut w, mf.or(other), bf.or(other), sf);
    // the balances cover what is owed, up to an arbitrary shortfall of earlier roundings
    let vault: Vec<(&str, Z, Z)> = DENOMS[..n].iter().map(|d| (*d, Z::u128(u128_any("balance")), Z::u128(u128_any("shortfall")))).collect();
    for (d, bal, short) in &vault {
        assume(owed(&u, s0, &fee_of(&w), d).le(*bal * Z::k(ONE) + *short));
    }
    if let Ok(r) = op(&mut w, k, now, &u, x, &funds) {
        reach("C04.op");
        let o = outputs(CORE, &r);
        let after: Vec<(Z, Z)> = vault
            .iter()
            .map(|(d, bal, short)| {
                let bal2 = *bal + coin_amt(&funds, d) - o.spent(CORE, d);
                (owed(&units(&w), supply(&w), &fee_of(&w), d), bal2 * Z::k(ONE) + *short)
            })
            .collect();
        for (owes, have) in &after {
            if k == 0 {
                check(owes.lt(*have + Z::k(ONE)), "C04.mint");
            } else {
                check(owes.le(*have), "C04.no_loss");
            }
        }
        if k == 0 {
            // last: what follows a failed obligation is only looked at where it holds
            for (owes, have) in &after {
                check(owes.le(*have), "C04.mint_rounds_down");
            }
        }
    }
}
pub fn h_accrue_3() {
    let k = choose("op", 5);
    accrue(k, 3, true)
}
pub fn h_solvency_3() {
    solvency(3, choose("op", 5), false)
}
pub fn h_solvency() {
    solvency(1, choose("op", 5), false)
}
pub fn h_solvency_streaming() {
    solvency(1, choose("op", 5), true)
}
pub fn h_solvency_2() {
    solvency(2, choose("op", 5), false)
}
pub fn h_solvency_streaming_2() {
    solvency(2, choose("op", 5), true)
}
