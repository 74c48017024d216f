//! Mint and burn: C01, C02, C03, C05.
use crate::core_util::*;

pub struct MintCase {
    pub w: World,
    pub u: Vec<(String, Decimal)>,
    pub s0: Uint128,
    pub fee: Option<Decimal>,
    pub amount: Uint128,
    pub funds: Vec<Coin>,
    pub rcv: Option<String>,
    pub rfd: Option<String>,
    pub by: &'static str,
    pub now: u64,
}
fn mint_msg(c: &MintCase) -> ExecuteMsg {
    ExecuteMsg::Mint { amount: c.amount, receiver: c.rcv.clone(), refund_to: c.rfd.clone() }
}
/// payments of a successful mint, against the units in force afterwards
fn mint_checks(c: &MintCase, r: &Response) {
    let o = outputs(CORE, r);
    let am = Z::u128(c.amount);
    let rcv = c.rcv.as_deref().unwrap_or(c.by);
    let rfd = c.rfd.as_deref().unwrap_or(c.by);
    let after = units(&c.w);
    // C01: what the user pays
    for (d, x) in &after {
        let need = mulf(Z::dec(*x), am).max(Z::k(1));
        let back = o.received(rfd, d);
        check((amt_in(&c.funds, d) - back).eq(need), "C01.deposit");
        check(o.spent(CORE, d).eq(back), "C01.no_other_payment");
    }
    check(c.funds.iter().all(|f| has(&after, &f.denom)), "C01.only_index_assets");
    check(o.flows.iter().all(|f| f.denom.is_empty() || f.denom == INDEX || has(&after, &f.denom)), "C01.no_other_denom");
    // C02: what is issued
    let fee = match c.fee {
        Some(f) => mulf(Z::dec(f), am).max(Z::k(1)),
        None => Z::k(0),
    };
    check(o.minted(INDEX).eq(am), "C02.minted");
    check((Z::u128(supply(&c.w)) - Z::u128(c.s0)).eq(am), "C02.supply");
    check(index_executable(&o, Z::k(0)), "C02.executable");
    let who = |p: &str| {
        let mut z = Z::k(0);
        if p == rcv {
            z = z + am - fee
        }
        if p == COLL {
            z = z + fee
        }
        z
    };
    for p in ["alice", "bob", "carol", COLL, GOV, "pool"] {
        check(o.received(p, INDEX).eq(who(p)), "C02.split");
    }
    check(o.goes_only_to(&[CORE, rcv, rfd, COLL]), "C02.parties");
    check(only_kinds(&o, |k| matches!(k, Kind::Send | Kind::Mint)), "C02.kinds");
    check(rcv != "!bad" && rfd != "!bad", "C02.valid_address");
}
fn base(n: usize, fee: Option<Decimal>) -> MintCase {
    let u = any_units("unit", n, 0, u128::MAX);
    let u = maybe_reversed(u);
    MintCase { w: World::default(), u, s0: u128_any("supply"), fee, amount: u128_any("amount"), funds: vec![], rcv: None, rfd: None, by: "alice", now: any_now() }
}
fn setup(c: &mut MintCase, sf: Option<StreamingFee>) {
    save_config(&mut c.w, PauseInfo::default());
    save_units(&mut c.w, &c.u, c.s0);
    let other = spare(&c.w, "burn_fee");
    let rest = if sf.is_none() { spare_streaming(&c.w, c.now, &c.u) } else { None };
    save_fee(&mut c.w, c.fee, other, sf.or(rest));
}
fn run_mint(c: &mut MintCase) -> Option<Response> {
    let m = mint_msg(c);
    let (env, info) = (env_at(CORE, c.now), msg_info(c.by, c.funds.clone()));
    tx(|| execute(c.w.deps(), env, info, m)).ok()
}
fn mint_n(n: usize) {
    let fee = opt_dec("mint_fee", 1, ONE - 1);
    let mut c = base(n, fee);
    setup(&mut c, None);
    // any subset of the assets, possibly with something else
    for d in DENOMS.iter().take(n) {
        if choose("fund?", 2) == 0 {
            let a = u128_any(&format!("fund_{d}"));
            c.funds.push(coin_of(d, a))
        }
    }
    match choose("alien?", 3) {
        1 => c.funds.push(coin_of("xalien", u128_any("fund_alien"))),
        2 => c.funds.insert(0, coin_of(INDEX, u128_any("fund_index"))),
        _ => {}
    }
    let before = snap(&c.w);
    if let Some(r) = run_mint(&mut c) {
        reach("C01.mint");
        reach("C02.mint");
        mint_checks(&c, &r);
        let after = snap(&c.w);
        check(after.same_units(&before), "C01.units_unchanged");
        check(after.same_fee(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_trades(&before) & after.same_plan(&before), "C02.frame");
    }
}
/// one and two assets, any funds
pub fn h_mint() {
    mint_n(1 + choose("n_units", 2))
}
pub fn h_mint_3() {
    mint_n(3)
}
pub fn h_mint_4() {
    mint_n(4)
}
pub fn h_mint_5() {
    mint_n(5)
}
/// who receives what
pub fn h_mint_to() {
    let fee = opt_dec("mint_fee", 1, ONE - 1);
    let mut c = base(1, fee);
    setup(&mut c, None);
    c.funds.push(coin_of(DENOMS[0], u128_any("fund")));
    c.rcv = opt_str("receiver", &["bob", COLL, "!bad"]);
    c.rfd = opt_str("refund_to", &["carol", "bob", COLL, "!bad"]);
    if let Some(r) = run_mint(&mut c) {
        reach("C02.mint_to");
        mint_checks(&c, &r);
    }
}
/// minted by, and for, the parties that play other roles
pub fn h_mint_by() {
    let fee = opt_dec("mint_fee", 1, ONE - 1);
    let mut c = base(1, fee);
    let sf = if choose("streaming", 2) == 1 { Some(active_streaming(c.now, 0, &c.u, choose("collected?", 2) == 1)) } else { None };
    setup(&mut c, sf);
    c.by = ["alice", COLL, GOV, "pool"][choose("sender", 4)];
    c.funds.push(coin_of(DENOMS[0], u128_any("fund")));
    c.rcv = opt_str("receiver", &["alice", "carol"]);
    c.rfd = opt_str("refund_to", &["alice"]);
    if let Some(r) = run_mint(&mut c) {
        reach("C02.mint_by");
        mint_checks(&c, &r);
    }
}
/// with an active streaming fee: the units in force are those after the settlement
pub fn h_mint_streaming() {
    mint_streaming(2)
}
pub fn h_mint_streaming_3() {
    mint_streaming(3)
}
pub fn h_mint_streaming_4() {
    mint_streaming(4)
}
fn mint_streaming(n: usize) {
    let mut c = base(n, Some(dec_in("mint_fee", 1, ONE - 1)));
    let sf = active_streaming(c.now, 0, &c.u, true);
    setup(&mut c, Some(sf));
    for d in DENOMS.iter().take(n) {
        c.funds.push(coin_of(d, u128_any(&format!("fund_{d}"))))
    }
    if choose("to_others", 2) == 1 {
        c.rcv = Some("bob".into());
        c.rfd = Some("carol".into());
    }
    if let Some(r) = run_mint(&mut c) {
        reach("C01.mint_streaming");
        mint_checks(&c, &r);
    }
}
/// enough funds and room in the supply: minting works
pub fn h_mint_live() {
    let n = 1 + choose("n_units", 3);
    let fee = opt_dec("mint_fee", 1, ONE - 1);
    let mut c = base(n, fee);
    setup(&mut c, None);
    assume((Z::u128(c.s0) + Z::u128(c.amount)).le(Z::k(u128::MAX)));
    if fee.is_some() {
        assume(Z::k(1).le(Z::u128(c.amount)));
    }
    for d in DENOMS.iter().take(n) {
        let need = mulf(unit_of(&c.u, d), Z::u128(c.amount)).max(Z::k(1));
        let a = u128_any(&format!("fund_{d}"));
        assume(need.le(Z::u128(a)));
        c.funds.push(coin_of(d, a));
    }
    c.rcv = opt_str("receiver", &["bob"]);
    let m = mint_msg(&c);
    let (env, info) = (env_at(CORE, c.now), msg_info("alice", c.funds.clone()));
    let r = no_panic("C01.succeeds", || execute(c.w.deps(), env, info, m));
    check(r.is_ok(), "C01.succeeds");
    reach("C01.live");
}

pub struct BurnCase {
    pub w: World,
    pub u: Vec<(String, Decimal)>,
    pub s0: Uint128,
    pub fee: Option<Decimal>,
    pub funds: Vec<Coin>,
    pub to: Option<String>,
    pub by: &'static str,
    pub now: u64,
}
fn burn_base(n: usize, sf: bool) -> BurnCase {
    let u = maybe_reversed(any_units("unit", n, 0, u128::MAX));
    let mut c = BurnCase { w: World::default(), u, s0: u128_any("supply"), fee: opt_dec("burn_fee", 1, ONE - 1), funds: vec![], to: None, by: "alice", now: any_now() };
    save_config(&mut c.w, PauseInfo::default());
    save_units(&mut c.w, &c.u, c.s0);
    let s = if sf { Some(active_streaming(c.now, 0, &c.u, true)) } else { None };
    let other = spare(&c.w, "mint_fee");
    let rest = if s.is_none() { spare_streaming(&c.w, c.now, &c.u) } else { None };
    save_fee(&mut c.w, other, c.fee, s.or(rest));
    c
}
fn run_burn(c: &mut BurnCase) -> Option<Response> {
    let m = ExecuteMsg::Burn { redeem_to: c.to.clone() };
    let (env, info) = (env_at(CORE, c.now), msg_info(c.by, c.funds.clone()));
    tx(|| execute(c.w.deps(), env, info, m)).ok()
}
fn burn_checks(c: &BurnCase, r: &Response) {
    let o = outputs(CORE, r);
    let to = c.to.as_deref().unwrap_or(c.by);
    let paid = amt_in(&c.funds, INDEX);
    check(c.funds.len() == 1 && c.funds[0].denom == INDEX, "C03.pays_index_only");
    let fee = match c.fee {
        Some(f) => mulf(Z::dec(f), paid),
        None => Z::k(0),
    };
    let burned = paid - fee;
    check(o.burned(INDEX).eq(burned), "C03.burned");
    check((Z::u128(c.s0) - Z::u128(supply(&c.w))).eq(burned), "C03.supply");
    check(o.received(COLL, INDEX).eq(fee), "C03.fee");
    check(o.spent(CORE, INDEX).eq(paid), "C03.all_index_used");
    check(index_executable(&o, paid), "C03.executable");
    let after = units(&c.w);
    for (d, x) in &after {
        let out = mulf(Z::dec(*x), burned);
        check(o.received(to, d).eq(out), "C03.payout");
        check(o.spent(CORE, d).eq(out), "C03.no_other_payment");
    }
    check(o.flows.iter().all(|f| f.denom.is_empty() || f.denom == INDEX || has(&after, &f.denom)), "C03.no_other_denom");
    check(o.goes_only_to(&[to, COLL]) & (to != "!bad"), "C03.parties");
    check(only_kinds(&o, |k| matches!(k, Kind::Send | Kind::Burn)), "C03.kinds");
}
fn burn_n(n: usize) {
    let mut c = burn_base(n, false);
    let a = u128_any("paid");
    match choose("funds", 5) {
        0 => c.funds.push(coin_of(INDEX, a)),
        1 => {}
        2 => c.funds.push(coin_of(DENOMS[0], a)),
        3 => c.funds = vec![coin_of(INDEX, a), coin_of(DENOMS[0], u128_any("other"))],
        _ => c.funds = vec![coin_of("factory/core/inde", a)],
    }
    c.to = opt_str("redeem_to", &["bob", "!bad"]);
    let before = snap(&c.w);
    if let Some(r) = run_burn(&mut c) {
        reach("C03.burn");
        burn_checks(&c, &r);
        let after = snap(&c.w);
        check(after.same_units(&before) & after.same_fee(&before) & after.same_gov(&before) & after.same_pause(&before) & after.same_denoms(&before) & after.same_trades(&before) & after.same_plan(&before), "C03.frame");
    }
}
/// redeemed by, and to, the parties that play other roles
pub fn h_burn_by() {
    let mut c = burn_base(1, choose("streaming", 2) == 1);
    c.by = ["alice", COLL, GOV, "pool"][choose("sender", 4)];
    c.funds.push(coin_of(INDEX, u128_any("paid")));
    c.to = opt_str("redeem_to", &["alice", COLL, GOV]);
    if let Some(r) = run_burn(&mut c) {
        reach("C03.burn_by");
        burn_checks(&c, &r);
    }
}
pub fn h_burn() {
    burn_n(1 + choose("n_units", 2))
}
pub fn h_burn_3() {
    burn_n(3)
}
pub fn h_burn_4() {
    burn_n(4)
}
pub fn h_burn_5() {
    burn_n(5)
}
pub fn h_burn_streaming() {
    burn_streaming(2)
}
pub fn h_burn_streaming_3() {
    burn_streaming(3)
}
pub fn h_burn_streaming_4() {
    burn_streaming(4)
}
fn burn_streaming(n: usize) {
    let mut c = burn_base(n, true);
    c.funds.push(coin_of(INDEX, u128_any("paid")));
    c.to = opt_str("redeem_to", &["bob", COLL]);
    if let Some(r) = run_burn(&mut c) {
        reach("C03.burn_streaming");
        burn_checks(&c, &r);
    }
}
/// any positive amount within the supply can be redeemed as long as the payout is representable
pub fn h_burn_live() {
    let n = 1 + choose("n_units", 3);
    let mut c = burn_base(n, false);
    let a = u128_in("paid", 1, u128::MAX);
    assume(Z::u128(a).le(Z::u128(c.s0)));
    for (_, x) in &c.u {
        assume((Z::dec(*x) * Z::u128(a) / Z::k(ONE)).le(Z::k(u128::MAX)));
    }
    c.funds.push(coin_of(INDEX, a));
    let m = ExecuteMsg::Burn { redeem_to: None };
    let (env, info) = (env_at(CORE, c.now), msg_info("alice", c.funds.clone()));
    let r = no_panic("C03.succeeds", || execute(c.w.deps(), env, info, m));
    check(r.is_ok(), "C03.succeeds");
    reach("C03.live");
}

/// Minting and redeeming any part of what was received, at once: no asset comes back in a larger
/// amount than was paid.
fn round_trip(n: usize, streaming: bool) {
    let mut c = base(n, opt_dec("mint_fee", 1, ONE - 1));
    let bf = opt_dec("burn_fee", 1, ONE - 1);
    let sf = if streaming { Some(active_streaming(c.now, 0, &c.u, true)) } else { None };
    save_config(&mut c.w, PauseInfo::default());
    save_units(&mut c.w, &c.u, c.s0);
    save_fee(&mut c.w, c.fee, bf, sf);
    for d in DENOMS.iter().take(n) {
        c.funds.push(coin_of(d, u128_any(&format!("fund_{d}"))))
    }
    let r = match run_mint(&mut c) {
        Some(r) => r,
        None => return,
    };
    let o = outputs(CORE, &r);
    let got = o.received("alice", INDEX);
    let back = u128_any("redeemed");
    assume(Z::u128(back).le(got));
    let r2 = tx(|| execute(c.w.deps(), env_at(CORE, c.now), msg_info("alice", vec![coin_of(INDEX, back)]), ExecuteMsg::Burn { redeem_to: None }));
    if let Ok(r2) = r2 {
        reach("C05.round_trip");
        let o2 = outputs(CORE, &r2);
        for d in DENOMS.iter().take(n) {
            let paid = amt_in(&c.funds, d) - o.received("alice", d);
            check(o2.received("alice", d).le(paid), "C05.no_profit");
        }
        check(Z::u128(c.s0).le(Z::u128(supply(&c.w))), "C05.supply");
    }
}
pub fn h_round_trip() {
    round_trip(1 + choose("n_units", 2), false)
}
pub fn h_round_trip_3() {
    round_trip(3, false)
}
pub fn h_round_trip_4() {
    round_trip(4, false)
}
pub fn h_round_trip_streaming_3() {
    round_trip(3, true)
}
pub fn h_round_trip_streaming() {
    round_trip(1, true)
}
pub fn h_round_trip_streaming_2() {
    round_trip(2, true)
}
/// Splitting: minting in two steps never needs less than minting once, by less than one unit more
/// than the split; redeeming in two steps never pays more than redeeming once.
pub fn h_split() {
    let u = dec_any("unit");
    let s0 = u128_any("supply");
    let (a, b) = (u128_any("first"), u128_any("second"));
    let ab = Z::u128(a) + Z::u128(b);
    assume(ab.le(Z::k(u128::MAX)));
    let mk = || {
        let mut w = World::default();
        save_config(&mut w, PauseInfo::default());
        save_units(&mut w, &[(DENOMS[0].to_string(), u)], s0);
        let other = spare(&w, "mint_fee");
        save_fee(&mut w, other, None, None);
        w
    };
    let pay = |w: &mut World, x: Uint128| {
        tx(|| execute(w.deps(), env_at(CORE, 1_700_000_000), msg_info("alice", vec![coin_of(INDEX, x)]), ExecuteMsg::Burn { redeem_to: None }))
            .ok()
            .map(|r| outputs(CORE, &r).received("alice", DENOMS[0]))
    };
    let (mut w1, mut w2) = (mk(), mk());
    if let Some(x) = pay(&mut w1, a) {
        if let Some(y) = pay(&mut w1, b) {
            if let Some(z) = pay(&mut w2, ab.to_u128()) {
                reach("C05.split");
                check((x + y).le(z), "C05.split_redeem");
                check(z.le(x + y + Z::k(1)), "C05.split_redeem_close");
            }
        }
    }
}
