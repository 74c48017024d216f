//! Creation of an index (C19) and migration of all contracts (C20).
use crate::core_util::*;
use cosmwasm_std::{Reply, ReplyOn, SubMsgResponse, SubMsgResult};
use osmosis_std::types::osmosis::tokenfactory::v1beta1::MsgCreateDenomResponse;
use prost::Message;

pub fn h_instantiate() {
    let mut w = World::default();
    let now = any_now();
    let gov = ["gov", "!bad"][choose("gov", 2)];
    let coll = ["collector", "x", "!bad"][choose("collector", 3)];
    let (a, b) = (dec_any("unit0"), dec_any("unit1"));
    let (u, dup): (Vec<(String, Decimal)>, bool) = match choose("units", 6) {
        0 => (vec![], false),
        1 => (vec![("uatom".into(), a)], false),
        2 => (vec![("uosmo".into(), a), ("uatom".into(), b)], false),
        3 => (vec![("uatom".into(), a), ("uatom".into(), b)], true),
        4 => (vec![("uatom".into(), a), ("uosmo".into(), b), ("uatom".into(), dec_any("unit2"))], true),
        _ => (vec![("uatoma".into(), a), ("uatom".into(), b)], false),
    };
    let (mf, bf) = (opt_dec("mint_fee", 1, ONE - 1), opt_dec("burn_fee", 1, ONE - 1));
    let sf = if choose("streaming", 2) == 1 { Some(StreamingFeePayload { rate: dec_in("rate", 1, MAX_STREAMING), freeze: choose("freeze", 2) == 1 }) } else { None };
    let msg = InstantiateMsg {
        gov: gov.into(),
        fee: FeePayload { collector: coll.into(), mint_fee: mf, burn_fee: bf, streaming_fee: sf.clone() },
        index_denom: "index".into(),
        index_units: u.clone(),
        reserve_denom: RESERVE.into(),
    };
    let valid = gov == "gov" && coll == "collector" && !dup;
    let r = no_panic("C19.no_panic", || instantiate(w.deps(), env_at(CORE, now), msg_info("anyone", vec![]), msg));
    check(r.is_ok() == valid, "C19.iff_valid");
    let r = match r {
        Ok(r) => r,
        Err(_) => return,
    };
    reach("C19.created");
    let s = snap(&w);
    check(s.supply.is_zero(), "C19.no_supply");
    check(same_units(&s.units, &u), "C19.units");
    check(s.cfg.gov.as_str() == GOV && s.pending.is_none(), "C19.gov");
    check(!s.cfg.paused.paused, "C19.not_paused");
    check(s.cfg.reserve_denom == RESERVE, "C19.reserve_denom");
    check(s.reb.is_none() && s.reserve.is_none(), "C19.no_rebalance");
    check((s.fee.collector.as_str() == COLL) & same_opt_dec(&s.fee.mint_fee, &mf) & same_opt_dec(&s.fee.burn_fee, &bf), "C19.fee");
    match (&s.fee.streaming_fee, &sf) {
        (None, None) => {}
        (Some(x), Some(y)) => check(Z::dec(x.rate).eq(Z::dec(y.rate)) & (x.freeze == y.freeze) & Z::u64(x.last_collected_at).eq(Z::u64(now)) & (x.collected.len() == 0), "C19.streaming"),
        _ => check(false, "C19.streaming"),
    }
    let o = outputs(CORE, &r);
    let f = o.flows.iter().find(|f| matches!(f.kind, Kind::CreateDenom));
    check(o.other == 0 && o.flows.len() == 1 && o.replies == 1, "C19.one_denom");
    match f {
        Some(f) => check(f.from == CORE && f.denom == "index", "C19.one_denom"),
        None => check(false, "C19.one_denom"),
    }
    // the confirmation
    let sub = &r.messages[0];
    check(matches!(sub.reply_on, ReplyOn::Success | ReplyOn::Always), "C19.confirmed");
    let id = u64_in("reply_id", 0, u64::MAX);
    let expected = Z::u64(id).eq(Z::u64(sub.id));
    let name = if choose("confirmed_as", 2) == 0 { INDEX } else { "factory/core/Other" };
    let data = Binary(MsgCreateDenomResponse { new_token_denom: name.into() }.encode_to_vec());
    let before = snap(&w);
    let r = no_panic("C19.reply_no_panic", || reply(w.deps(), env_at(CORE, now), Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(data) }) }));
    check(r.is_ok() == expected, "C19.only_its_reply");
    let after = snap(&w);
    if let Ok(r) = r {
        reach("C19.confirmed");
        check(after.cfg.index_denom == name, "C19.index_denom");
        check(outputs(CORE, &r).silent(), "C19.reply_silent");
        check(after.cfg.reserve_denom == RESERVE, "C19.reply_frame");
    } else {
        check(after.cfg.index_denom == before.cfg.index_denom, "C19.refused");
    }
    check(after.same_gov(&before) & after.same_pause(&before) & after.same_supply(&before) & after.same_units(&before) & after.same_fee(&before) & after.same_plan(&before) & after.same_reserve(&before), "C19.reply_frame");
}
/// A new index is usable: what it is given can be minted at once.
pub fn h_first_mint() {
    let mut w = World::default();
    let now = any_now();
    let u = any_units("unit", 2, 0, ONE * ONE);
    let msg = InstantiateMsg {
        gov: GOV.into(),
        fee: FeePayload { collector: COLL.into(), mint_fee: None, burn_fee: None, streaming_fee: Some(StreamingFeePayload { rate: dec_in("rate", 1, MAX_STREAMING), freeze: false }) },
        index_denom: "index".into(),
        index_units: u.clone(),
        reserve_denom: RESERVE.into(),
    };
    let r = tx(|| instantiate(w.deps(), env_at(CORE, now), msg_info("anyone", vec![]), msg));
    let r = match r {
        Ok(r) => r,
        Err(_) => return,
    };
    let id = r.messages[0].id;
    let data = Binary(MsgCreateDenomResponse { new_token_denom: INDEX.into() }.encode_to_vec());
    let r = tx(|| reply(w.deps(), env_at(CORE, now), Reply { id, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(data) }) }));
    check(r.is_ok(), "C19.confirms");
    let amount = u128_in("amount", 1, ONE);
    let funds = u.iter().map(|(d, _)| coin_of(d, Uint128::MAX)).collect();
    let r = no_panic("C19.first_mint", || execute(w.deps(), env_at(CORE, now), msg_info("alice", funds), ExecuteMsg::Mint { amount, receiver: None, refund_to: None }));
    check(r.is_ok(), "C19.first_mint");
    if let Ok(r) = r {
        reach("C19.first_mint");
        check(outputs(CORE, &r).received("alice", INDEX).eq(Z::u128(amount)), "C19.first_mint_amount");
    }
}

const VERSION_KEY: &[u8] = b"contract_info";
fn digit(name: &str) -> (u8, Z) {
    let d = u32_in(name, 48, 57);
    (d as u8, Z::u64(d as u64) - Z::k(48))
}
fn parse3(v: &str) -> [Z; 3] {
    let mut it = v.split(['-', '+']).next().unwrap().split('.').map(|x| Z::k(x.parse::<u128>().unwrap()));
    [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]
}
fn lt3(a: &[Z; 3], b: &[Z; 3]) -> bool {
    let (c0, c1, c2) = (a[0].lt(b[0]), a[1].lt(b[1]), a[2].lt(b[2]));
    let (e0, e1) = (a[0].eq(b[0]), a[1].eq(b[1]));
    c0 | (e0 & c1) | (e0 & e1 & c2)
}
fn eq3(a: &[Z; 3], b: &[Z; 3]) -> bool {
    a[0].eq(b[0]) & a[1].eq(b[1]) & a[2].eq(b[2])
}
type Migrate = fn(&mut World, Option<bool>) -> bool;
fn mig_core(w: &mut World, force: Option<bool>) -> bool {
    migrate(w.deps(), env_at("self", 1_700_000_000), MigrateMsg { force }).is_ok()
}
fn mig_airdrop(w: &mut World, force: Option<bool>) -> bool {
    ibcx_airdrop::contract::migrate(w.deps(), env_at("self", 1_700_000_000), ibcx_interface::airdrop::MigrateMsg { force }).is_ok()
}
fn mig_periphery(w: &mut World, force: Option<bool>) -> bool {
    ibcx_periphery::contract::migrate(w.deps(), env_at("self", 1_700_000_000), ibcx_interface::periphery::MigrateMsg { force }).is_ok()
}
fn version_of(w: &World) -> cw2::ContractVersion {
    cw2::get_contract_version(&w.st).unwrap()
}
pub fn h_migrate() {
    let m: Migrate = match choose("contract", 3) {
        0 => mig_core,
        1 => mig_airdrop,
        _ => mig_periphery,
    };
    // what a forced migration records is this build's name and version
    let mut w0 = World::default();
    check(tx(|| m(&mut w0, Some(true))), "C20.force");
    let new = version_of(&w0);
    let nv = parse3(&new.version);
    check(!new.version.contains('-'), "C20.release");
    let mut w = World::default();
    let name = match choose("name", 4) {
        0 => new.contract.clone(),
        1 => "other".to_string(),
        2 => format!("{}x", new.contract),
        _ => new.contract[1..].to_string(),
    };
    let ((a, za), (b, zb), (c, zc)) = (digit("major"), digit("minor"), digit("patch"));
    let mut v: Vec<u8> = vec![a, b'.', b, b'.', c];
    let mut sv = [za, zb, zc];
    let mut pre = false;
    let mut ok = true;
    match choose("shape", 5) {
        0 => {}
        1 => {
            // two digits: no leading zero
            let (d, zd) = digit("patch2");
            assume(Z::k(1).le(zc));
            v.push(d);
            sv[2] = zc * Z::k(10) + zd;
        }
        2 => {
            let (d, zd) = digit("minor2");
            assume(Z::k(1).le(zb));
            v.insert(3, d);
            sv[1] = zb * Z::k(10) + zd;
        }
        3 => {
            v.extend_from_slice(b"-rc.1");
            pre = true
        }
        _ => {
            v.truncate(3);
            ok = false
        }
    }
    cw2::set_contract_version(&mut w.st, name.clone(), String::from_utf8(v).unwrap()).unwrap();
    w.st.set(b"something", b"else");
    w.st.set(b"zzz", b"other");
    let force = [None, Some(false), Some(true)][choose("force", 3)];
    let r = no_panic("C20.no_panic", || m(&mut w, force));
    let older = lt3(&sv, &nv) | (pre & eq3(&sv, &nv));
    let should = (force == Some(true)) | ((name == new.contract) & ok & older);
    check(r == should, "C20.iff_older");
    if r {
        if force == Some(true) {
            reach("C20.forced");
        } else {
            reach("C20.upgrade");
        }
        check(version_of(&w) == new, "C20.recorded");
    }
    let rest = |w: &World| w.st.0.iter().filter(|(k, _)| k.as_slice() != VERSION_KEY).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
    check(rest(&w) == vec![(b"something".to_vec(), b"else".to_vec()), (b"zzz".to_vec(), b"other".to_vec())], "C20.frame");
}
/// never migrated to without a record of what it was
pub fn h_migrate_unknown() {
    let m: Migrate = match choose("contract", 3) {
        0 => mig_core,
        1 => mig_airdrop,
        _ => mig_periphery,
    };
    let mut w = World::default();
    let force = [None, Some(false), Some(true)][choose("force", 3)];
    let r = no_panic("C20.no_panic", || m(&mut w, force));
    check(r == (force == Some(true)), "C20.unknown");
    reach("C20.unknown");
}
