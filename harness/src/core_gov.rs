//! Pause and governance: C09, C10, C21 (trade information).
use crate::core_util::*;
use ibcx_interface::types::{RangeOrder, SwapRoute, SwapRoutes};

pub fn routes(pool: u64, denom: &str) -> SwapRoutes {
    SwapRoutes(vec![SwapRoute { pool_id: pool, token_denom: denom.into() }])
}
fn simple_payload() -> FeePayload {
    FeePayload { collector: "newcoll".into(), mint_fee: Some(Decimal::percent(1)), burn_fee: None, streaming_fee: None }
}
/// an arbitrary idle or rebalancing contract
fn any_core(rebalancing: bool) -> (World, u64) {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, u128::MAX);
    save_config(&mut w, any_pause());
    save_units(&mut w, &u, u128_any("supply"));
    let bf = spare(&w, "burn_fee");
    save_fee(&mut w, opt_dec("mint_fee", 1, ONE - 1), bf, Some(frozen_streaming(now, &u)));
    if rebalancing {
        let defl = vec![(u[0].0.clone(), dec_any("target"))];
        let infl = vec![("unew".to_string(), dec_in("weight", 1, u128::MAX))];
        let m = if choose("manager?", 2) == 1 { Some("manager") } else { None };
        save_rebalance(&mut w, m, &defl, &infl, &[("unew".to_string(), dec_any("reserve"))]);
    }
    (w, now)
}
fn any_pause() -> PauseInfo {
    match choose("pause", 3) {
        0 => PauseInfo::default(),
        1 => PauseInfo { paused: true, expires_at: None },
        _ => PauseInfo { paused: true, expires_at: Some(u64_in("expires_at", 0, u64::MAX)) },
    }
}
fn in_force(p: &PauseInfo, now: u64) -> bool {
    match p.expires_at {
        Some(e) => p.paused & (now < e),
        None => p.paused,
    }
}

/// C09: nobody mints or redeems while a pause is in force; otherwise pausing makes no difference.
pub fn h_pause_token() {
    let mut w = World::default();
    let now = any_now();
    let p = any_pause();
    let u = any_units("unit", 1, 0, ONE * ONE);
    save_config(&mut w, p.clone());
    save_units(&mut w, &u, u128_in("supply", 1000, ONE * ONE));
    save_spare_fee(&mut w);
    let who = ["alice", GOV, COLL][choose("sender", 3)];
    let (f, m) = if choose("burn?", 2) == 1 {
        (coin_of(INDEX, u128_in("paid", 1, 1000)), ExecuteMsg::Burn { redeem_to: None })
    } else {
        (coin_of(DENOMS[0], Uint128::MAX), ExecuteMsg::Mint { amount: u128_in("amount", 1, 1000), receiver: None, refund_to: None })
    };
    let r = no_panic("C09.no_panic", || execute(w.deps(), env_ns(CORE, now, u64_in("nanos", 0, 999_999_999)), msg_info(who, vec![f]), m));
    let blocked = in_force(&p, now);
    check(r.is_err() == blocked, "C09.token");
    if r.is_ok() {
        reach("C09.token_open")
    } else {
        reach("C09.token_blocked")
    }
}
/// Pausing and releasing: governance only, expiry in the future, nothing else changes.
pub fn h_pause_gov() {
    let (mut w, now) = any_core(choose("rebalancing", 2) == 1);
    let before = snap(&w);
    let active = in_force(&before.cfg.paused, now);
    let sender = ["gov", "alice", "collector", "go", "govx"][choose("sender", 5)];
    let pausing = choose("pause?", 2) == 1;
    let exp = if choose("expiry?", 2) == 1 { Some(u64_in("expiry", 0, u64::MAX)) } else { None };
    let m = if pausing { GovMsg::Pause { expires_at: exp } } else { GovMsg::Release {} };
    let r = no_panic("C09.gov_no_panic", || execute(w.deps(), env_at(CORE, now), msg_info(sender, vec![]), ExecuteMsg::Gov(m)));
    let allowed = if pausing {
        let fut = match exp {
            Some(e) => now < e,
            None => true,
        };
        (sender == GOV) & !active & fut
    } else {
        (sender == GOV) & active
    };
    check(r.is_ok() == allowed, "C09.gov");
    if let Ok(r) = r {
        let after = snap(&w);
        check(outputs(CORE, &r).silent(), "C09.no_payment");
        check(in_force(&after.cfg.paused, now) == pausing, "C09.effect");
        if pausing {
            reach("C09.pause");
            check(same_opt_u64(&after.cfg.paused.expires_at, &exp), "C09.expiry");
        } else {
            reach("C09.release");
        }
        check(after.same_gov(&before) & after.same_denoms(&before) & after.same_trades(&before) & after.same_supply(&before) & after.same_units(&before) & after.same_fee(&before) & after.same_plan(&before) & after.same_reserve(&before), "C09.frame");
    }
}
/// The configuration query reports the pause in force at the given time.
pub fn h_pause_query() {
    let (w, now) = any_core(false);
    let t = if choose("time?", 2) == 1 { Some(u64_in("time", 0, MAX_SECS)) } else { None };
    let r = no_panic("C09.query", || query(w.rdeps(), env_at(CORE, now), QueryMsg::GetConfig { time: t }));
    check(r.is_ok(), "C09.query");
    if let Ok(b) = r {
        let c: GetConfigResponse = from_json(b).unwrap();
        let s = snap(&w);
        let f = in_force(&s.cfg.paused, t.unwrap_or(now));
        check(c.paused.paused == f, "C09.query_pause");
        if f {
            reach("C09.query_paused");
            check(same_opt_u64(&c.paused.expires_at, &s.cfg.paused.expires_at), "C09.query_expiry");
        }
        check(c.gov == s.cfg.gov && c.pending_gov == s.pending && c.index_denom == s.cfg.index_denom && c.reserve_denom == s.cfg.reserve_denom, "C09.query_config");
    }
}

fn gov_msg(k: usize) -> GovMsg {
    match k {
        0 => GovMsg::Pause { expires_at: None },
        1 => GovMsg::Release {},
        2 => GovMsg::UpdateGov("newgov".into()),
        3 => GovMsg::RevokeGov {},
        4 => GovMsg::UpdateFeeStrategy(simple_payload()),
        5 => GovMsg::UpdateRebalanceManager(opt_str("new_manager", &["other", GOV, COLL])),
        6 => GovMsg::UpdateReserveDenom("unewreserve".into()),
        7 => GovMsg::UpdateTradeInfo { denom: "uatom".into(), routes: routes(1, RESERVE), cooldown: 1, max_trade_amount: Uint128::new(5) },
        _ => GovMsg::AcceptGov {},
    }
}
/// Whoever is not governance changes nothing through a governance message: any sender of up to
/// four letters.
pub fn h_gov_auth() {
    let reb = choose("rebalancing", 2) == 1;
    let (mut w, now) = any_core(reb);
    let pending = choose("pending?", 2) == 1;
    set_pending(&mut w, if pending { Some("nex") } else { None });
    let k = choose("msg", 10);
    let sender = letters("sender", 2 + choose("sender_len", 3));
    let m = if k == 9 {
        ExecuteMsg::Rebalance(RebalanceMsg::Init { manager: None, deflation: vec![("uatom".into(), Decimal::zero())], inflation: vec![("unew".into(), Decimal::one())] })
    } else {
        ExecuteMsg::Gov(gov_msg(k))
    };
    let before = snap(&w);
    let s2 = sender.clone();
    let r = tx(|| execute(w.deps(), env_at(CORE, now), msg_info(&s2, vec![]), m));
    if r.is_ok() {
        if k == 8 {
            reach("C10.accept");
            check(pending && sender == "nex", "C10.only_pending");
        } else {
            reach("C10.gov");
            check(sender == "gov", "C10.only_gov");
        }
        let after = snap(&w);
        // governance changes hands only by acceptance
        check(after.cfg.gov == if k == 8 { "nex" } else { "gov" }, "C10.handover");
        let want = match k {
            2 => Some(Addr::unchecked("newgov")),
            3 | 8 => None,
            _ => before.pending.clone(),
        };
        check(after.pending == want, "C10.pending");
        if k == 2 {
            check(!pending, "C10.one_pending");
        }
    }
}
/// What each governance message changes, and that governance can do it.
pub fn h_gov_effect() {
    let reb = choose("rebalancing", 2) == 1;
    let (mut w, now) = any_core(reb);
    let pending = choose("pending?", 2) == 1;
    // also handed to the account that has it
    let next = ["nextgov", GOV][choose("next", 2)];
    set_pending(&mut w, if pending { Some(next) } else { None });
    let k = 2 + choose("msg", 7);
    let bad = choose("bad_address", 2) == 1;
    let m = match k {
        2 if bad => GovMsg::UpdateGov("!bad".into()),
        5 if bad => GovMsg::UpdateRebalanceManager(Some("!bad".into())),
        _ => gov_msg(k),
    };
    let m2 = m.clone();
    let before = snap(&w);
    let sender = if k == 8 { next } else { GOV };
    let r = no_panic("C10.effect_no_panic", || execute(w.deps(), env_at(CORE, now), msg_info(sender, vec![]), ExecuteMsg::Gov(m)));
    let allowed = match k {
        2 => !pending && !bad,
        3 | 8 => pending,
        4 | 6 => !reb,
        5 => reb && !bad,
        _ => true,
    };
    check(r.is_ok() == allowed, "C10.allowed");
    if r.is_err() {
        return;
    }
    reach("C10.effect");
    let after = snap(&w);
    let (mut gov, mut denoms, mut fee, mut plan) = (true, true, true, true);
    match k {
        2 | 3 | 8 => {
            gov = false;
            check(after.cfg.gov == if k == 8 { next } else { GOV }, "C10.effect_gov");
            check(after.pending == if k == 2 { Some(Addr::unchecked("newgov")) } else { None }, "C10.effect_pending");
        }
        4 => fee = false,
        5 => {
            plan = false;
            let want = match m2 {
                GovMsg::UpdateRebalanceManager(x) => x,
                _ => None,
            };
            let (a, b) = (after.reb.as_ref().unwrap(), before.reb.as_ref().unwrap());
            check(addr_s(&a.manager) == want.as_deref().unwrap_or(""), "C10.manager");
            check(same_units(&a.deflation, &b.deflation) & same_units(&a.inflation, &b.inflation), "C10.manager_keeps_plan");
        }
        6 => {
            denoms = false;
            check(after.cfg.reserve_denom == "unewreserve" && after.cfg.index_denom == before.cfg.index_denom, "C10.reserve_denom");
        }
        _ => {}
    }
    check(after.same_pause(&before) & after.same_supply(&before) & after.same_units(&before) & after.same_reserve(&before), "C10.frame");
    check(!gov | after.same_gov(&before), "C10.frame_gov");
    check(!denoms | after.same_denoms(&before), "C10.frame_denoms");
    check(after.same_trades_but(&before, if k == 7 { ("uatom", RESERVE) } else { ("", "") }), "C10.frame_trades");
    check(!fee | after.same_fee(&before), "C10.frame_fee");
    check(!plan | after.same_plan(&before), "C10.frame_plan");
}
/// A whole handover: propose, (revoke,) accept.
pub fn h_gov_handover() {
    let (mut w, now) = any_core(false);
    set_pending(&mut w, None);
    let ex = |w: &mut World, s: &str, m: GovMsg| tx(|| execute(w.deps(), env_at(CORE, now), msg_info(s, vec![]), ExecuteMsg::Gov(m))).is_ok();
    check(ex(&mut w, GOV, GovMsg::UpdateGov("newgov".into())), "C10.propose");
    // the old governance stays in charge until acceptance
    check(CONFIG.load(&w.st).unwrap().gov == GOV, "C10.not_yet");
    let revoke = choose("revoke", 2) == 1;
    if revoke {
        check(ex(&mut w, GOV, GovMsg::RevokeGov {}), "C10.revoke");
        check(!ex(&mut w, "newgov", GovMsg::AcceptGov {}), "C10.revoked");
        check(CONFIG.load(&w.st).unwrap().gov == GOV, "C10.revoked_gov");
        return;
    }
    check(ex(&mut w, "newgov", GovMsg::AcceptGov {}), "C10.accepted");
    reach("C10.handover");
    check(!ex(&mut w, GOV, GovMsg::UpdateReserveDenom("x".into())), "C10.old_gov_out");
    check(ex(&mut w, "newgov", GovMsg::UpdateReserveDenom("x".into())), "C10.new_gov_in");
    check(!ex(&mut w, "newgov", GovMsg::AcceptGov {}), "C10.accept_once");
}

/// C21: registering trade information and reading it back.
pub fn h_trade_info() {
    let (mut w, now) = any_core(choose("rebalancing", 2) == 1);
    // something registered before under the same and under another pair
    let old = TradeInfo { routes: routes(9, RESERVE), cooldown: 77, max_trade_amount: u128_any("old_max"), last_traded_at: Some(u64_in("old_last", 0, u64::MAX)) };
    TRADE_INFOS.save(&mut w.st, ("uatom", RESERVE), &old).unwrap();
    TRADE_INFOS.save(&mut w.st, (RESERVE, "uatom"), &old).unwrap();
    let denom = ["uatom", "ujuno"][choose("denom", 2)];
    let (cooldown, max) = (u64_in("cooldown", 0, u64::MAX), u128_any("max"));
    let hop = |pool_id: u64, d: &str| SwapRoute { pool_id, token_denom: d.into() };
    let rt = match choose("hops", 4) {
        0 => routes(1, RESERVE),
        1 => SwapRoutes(vec![hop(5, "umid"), hop(6, RESERVE)]),
        2 => SwapRoutes(vec![hop(6, "umid"), hop(5, "ulate"), hop(7, RESERVE)]),
        _ => SwapRoutes(vec![hop(5, "umid"), hop(5, denom), hop(5, RESERVE)]),
    };
    let r2 = rt.clone();
    let m = GovMsg::UpdateTradeInfo { denom: denom.into(), routes: rt, cooldown, max_trade_amount: max };
    let r = no_panic("C21.register", || execute(w.deps(), env_at(CORE, now), msg_info(GOV, vec![]), ExecuteMsg::Gov(m)));
    check(r.is_ok(), "C21.register");
    reach("C21.register");
    let q = |a: &str, b: &str| -> Option<TradeInfoPayload> {
        let r: GetTradeInfoResponse = from_json(query(w.rdeps(), env_at(CORE, now), QueryMsg::GetTradeInfo { denom_in: a.into(), denom_out: b.into() }).unwrap()).unwrap();
        r.trade_info
    };
    match q(denom, RESERVE) {
        Some(t) => {
            check(t.denom_in == denom && t.denom_out == RESERVE && t.routes == r2, "C21.read_back");
            check(Z::u64(t.cooldown).eq(Z::u64(cooldown)) & Z::u128(t.max_trade_amount).eq(Z::u128(max)) & t.last_traded_at.is_none(), "C21.values");
        }
        None => check(false, "C21.read_back"),
    }
    match q(RESERVE, "uatom") {
        Some(t) => check(Z::u128(t.max_trade_amount).eq(Z::u128(old.max_trade_amount)) & same_opt_u64(&t.last_traded_at, &old.last_traded_at) & (t.cooldown == 77), "C21.others_kept"),
        None => check(false, "C21.others_kept"),
    }
    check(q("nothing", RESERVE).is_none(), "C21.absent");
}
/// Listing: every registered pair of a denom exactly once, in order, over pages of any size.
pub fn h_trade_list() {
    let mut w = World::default();
    save_config(&mut w, PauseInfo::default());
    let n = choose("n", 4);
    let outs = ["uaaa", "ubbb", "uccc"];
    for (i, d) in outs.iter().take(n).enumerate() {
        let t = TradeInfo { routes: routes(i as u64, d), cooldown: i as u64, max_trade_amount: u128_any("max"), last_traded_at: None };
        TRADE_INFOS.save(&mut w.st, ("uatom", d), &t).unwrap();
        TRADE_INFOS.save(&mut w.st, ("uatoma", d), &t).unwrap();
        TRADE_INFOS.save(&mut w.st, ("uato", d), &t).unwrap();
    }
    let desc = choose("order", 3);
    let order = match desc {
        0 => None,
        1 => Some(RangeOrder::Asc),
        _ => Some(RangeOrder::Desc),
    };
    let limit = 1 + choose("limit", 4) as u32;
    let mut got: Vec<String> = vec![];
    let mut after: Option<String> = None;
    let mut empty = false;
    for _ in 0..5 {
        let m = QueryMsg::ListTradeInfo { denom_in: "uatom".into(), start_after: after.clone(), limit: Some(limit), order: order.clone() };
        let r = no_panic("C21.list", || query(w.rdeps(), env_at(CORE, 1_700_000_000), m));
        let l: ListTradeInfoResponse = match r {
            Ok(b) => from_json(b).unwrap(),
            Err(_) => {
                check(false, "C21.list");
                return;
            }
        };
        check(l.0.len() <= limit as usize, "C21.page_size");
        if l.0.is_empty() {
            empty = true;
            break;
        }
        for t in &l.0 {
            check(t.denom_in == "uatom", "C21.list_denom");
            got.push(t.denom_out.clone())
        }
        after = got.last().cloned();
    }
    let mut want: Vec<String> = outs.iter().take(n).map(|s| s.to_string()).collect();
    if desc == 2 {
        want.reverse()
    }
    // ascending is the default
    check(got == want && empty, "C21.list_complete");
    reach("C21.list");
}
