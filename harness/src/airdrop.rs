//! The airdrop contract: C22-C28.
use crate::env::*;
use crate::sym::*;
use cosmwasm_std::{from_json, Addr, Binary, Coin, Response, Uint128};
use ibcx_airdrop::airdrop::{Airdrop, BearerAirdrop, OpenAirdrop};
use ibcx_airdrop::contract::{execute, instantiate, query};
use ibcx_airdrop::state::{airdrops, CLAIM_LOGS, LABELS, LATEST_AIRDROP_ID};
use ibcx_interface::airdrop::*;
use ibcx_interface::types::RangeOrder;
use sha2::{Digest, Sha256};

const ME: &str = "airdrop";
const DENOM: &str = "uosmo";
const ATOM: &str = "uatom";
/// what the merkle tree of every airdrop below allows
const LEAVES: [(&str, u128); 4] = [("alice", 1000), ("bob", 250), ("carol", 7), ("dave", 100_000_000_000_000_000_000)];

fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
fn leaf(k: &str, a: Uint128) -> [u8; 32] {
    sha(format!("{k}:{a}").as_bytes())
}
fn node(a: [u8; 32], b: [u8; 32]) -> [u8; 32] {
    let mut v = [a, b];
    v.sort();
    sha(&[v[0], v[1]].concat())
}
struct Tree {
    root: String,
    proofs: Vec<Vec<String>>,
}
fn tree() -> Tree {
    let l: Vec<[u8; 32]> = LEAVES.iter().map(|(k, a)| leaf(k, Uint128::new(*a))).collect();
    let (x, y) = (node(l[0], l[1]), node(l[2], l[3]));
    let h = |b: [u8; 32]| hex::encode(b);
    Tree {
        root: h(node(x, y)),
        proofs: vec![vec![h(l[1]), h(y)], vec![h(l[0]), h(y)], vec![h(l[3]), h(x)], vec![h(l[2]), h(x)]],
    }
}
const PUB: &str = "03ef5bd3fc2ac5d5ed7a8b7be3ed0c1a8d0e0bd3ee3d80b4a35e1a93fc1a5cbd77";
const SIG: &str = "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff";

#[derive(Clone)]
struct Drop {
    bearer: bool,
    creator: String,
    denom: String,
    total: Uint128,
    claimed: Uint128,
    root: String,
    label: Option<String>,
    created: u64,
    closed: Option<u64>,
    signer: String,
    key: Vec<u8>,
}
fn put(w: &mut World, id: u64, d: &Drop) {
    let a: Airdrop = if d.bearer {
        BearerAirdrop {
            creator: Addr::unchecked(&d.creator),
            signer: Addr::unchecked(&d.signer),
            signer_pub: Binary(d.key.clone()),
            denom: d.denom.clone(),
            total_amount: d.total,
            total_claimed: d.claimed,
            merkle_root: d.root.clone(),
            label: d.label.clone(),
            created_at: d.created,
            closed_at: d.closed,
        }
        .into()
    } else {
        OpenAirdrop {
            creator: Addr::unchecked(&d.creator),
            denom: d.denom.clone(),
            total_amount: d.total,
            total_claimed: d.claimed,
            merkle_root: d.root.clone(),
            label: d.label.clone(),
            created_at: d.created,
            closed_at: d.closed,
        }
        .into()
    };
    airdrops().save(&mut w.st, id, &a).unwrap();
    if let Some(l) = &d.label {
        LABELS.save(&mut w.st, l, &id).unwrap();
    }
}
fn get(w: &World, id: u64) -> Option<Drop> {
    Some(match airdrops().may_load(&w.st, id).unwrap()? {
        Airdrop::Open(a) => Drop { bearer: false, creator: a.creator.into(), denom: a.denom, total: a.total_amount, claimed: a.total_claimed, root: a.merkle_root, label: a.label, created: a.created_at, closed: a.closed_at, signer: String::new(), key: vec![] },
        Airdrop::Bearer(a) => Drop { bearer: true, creator: a.creator.into(), denom: a.denom, total: a.total_amount, claimed: a.total_claimed, root: a.merkle_root, label: a.label, created: a.created_at, closed: a.closed_at, signer: a.signer.into(), key: a.signer_pub.into() },
    })
}
fn same_fixed(a: &Drop, b: &Drop) -> bool {
    (a.bearer == b.bearer && a.creator == b.creator && a.denom == b.denom && a.root == b.root && a.label == b.label && a.signer == b.signer && a.key == b.key) & (a.created == b.created)
}
fn same_closed(a: &Drop, b: &Drop) -> bool {
    match (a.closed, b.closed) {
        (None, None) => true,
        (Some(x), Some(y)) => Z::u64(x).eq(Z::u64(y)),
        _ => false,
    }
}
fn same(a: &Drop, b: &Drop) -> bool {
    same_fixed(a, b) & same_closed(a, b) & Z::u128(a.total).eq(Z::u128(b.total)) & Z::u128(a.claimed).eq(Z::u128(b.claimed))
}
/// an airdrop with any amounts that its history can have led to
fn any_drop(name: &str, bearer: bool, creator: &str, label: Option<&str>, denom: &str, closed: bool) -> Drop {
    let total = u128_any(&format!("{name}_total"));
    let claimed = u128_any(&format!("{name}_claimed"));
    assume(Z::u128(claimed).le(Z::u128(total)));
    Drop { bearer, creator: creator.into(), denom: denom.into(), total, claimed, root: tree().root, label: label.map(|x| format!("{creator}/{x}")), created: 5, closed: if closed { Some(9) } else { None }, signer: if bearer { "signer".into() } else { String::new() }, key: if bearer { hex::decode(PUB).unwrap() } else { vec![] } }
}
fn run(w: &mut World, sender: &str, funds: Vec<Coin>, m: ExecuteMsg) -> Option<Response> {
    tx(|| execute(w.deps(), env_at(ME, 1_700_000_000), msg_info(sender, funds), m)).ok()
}
fn run_live(id: &str, w: &mut World, sender: &str, funds: Vec<Coin>, m: ExecuteMsg) -> Option<Response> {
    no_panic(id, || execute(w.deps(), env_at(ME, 1_700_000_000), msg_info(sender, funds), m)).ok()
}
fn any_payment(denom: &str) -> (Vec<Coin>, bool, Uint128) {
    let wrong = if denom == DENOM { ATOM } else { DENOM };
    let a = u128_any("paid");
    let nz = !a.is_zero();
    match choose("payment", 4) {
        0 => (vec![], false, a),
        1 => (vec![coin_of(denom, a)], nz, a),
        2 => (vec![coin_of(wrong, a)], false, a),
        _ => (vec![coin_of(wrong, Uint128::new(5)), coin_of(denom, a)], false, a),
    }
}

/// C22: registering
fn register(bearer: bool) {
    let mut w = World::default();
    let base = [0u64, 3][choose("ids_used", 2)];
    LATEST_AIRDROP_ID.save(&mut w.st, &base).unwrap();
    let other = any_drop("other", choose("other_bearer", 2) == 1, "alice", Some("x"), DENOM, choose("other_closed", 2) == 1);
    if base > 0 {
        put(&mut w, 2, &other);
    }
    let sender = ["alice", "bob"][choose("sender", 2)];
    let label = [None, Some("x"), Some("y"), Some("x/y"), Some(""), Some(" X ")][choose("label", 6)];
    let denom = [DENOM, ATOM][choose("denom", 2)];
    let (root, root_ok) = match choose("root", 5) {
        0 => (tree().root, true),
        4 => (format!("0x{}", tree().root), false),
        1 => ("00".repeat(31), false),
        2 => (format!("{}00", tree().root), false),
        _ => (format!("zz{}", "00".repeat(31)), false),
    };
    let (funds, paid_ok, paid) = any_payment(denom);
    let label_ok = !(base > 0 && sender == "alice" && label == Some("x"));
    let sig_ok = if bearer {
        let signer = ibcx_airdrop::verify::pub_to_addr(Binary(hex::decode(PUB).unwrap()), "osmo").unwrap();
        let digest = sha(signer.as_bytes());
        let good = choose("signature", 3);
        let g = good == 0;
        w.api.signed = Some(Box::new(move |h, s, p| {
            if good == 2 {
                // a signature of the same key over anything else
                return h != digest && s == hex::decode(SIG).unwrap() && p == hex::decode(PUB).unwrap();
            }
            g && h == digest && s == hex::decode(SIG).unwrap() && p == hex::decode(PUB).unwrap()
        }));
        g
    } else {
        true
    };
    let m = if bearer {
        RegisterPayload::Bearer { merkle_root: root.clone(), denom: denom.into(), label: label.map(|x| x.into()), signer_pub: PUB.into(), signer_sig: SIG.into() }
    } else {
        RegisterPayload::Open { merkle_root: root.clone(), denom: denom.into(), label: label.map(|x| x.into()) }
    };
    let r = run_live("C22.no_panic", &mut w, sender, funds, ExecuteMsg::Register(m));
    check(r.is_some() == (root_ok & paid_ok & label_ok & sig_ok), "C22.iff_valid");
    if base > 0 {
        match get(&w, 2) {
            Some(o) => check(same(&o, &other), "C22.others_kept"),
            None => check(false, "C22.others_kept"),
        }
        check(LABELS.load(&w.st, "alice/x").unwrap() == 2, "C22.labels_kept");
    }
    let latest = LATEST_AIRDROP_ID.load(&w.st).unwrap();
    let r = match r {
        Some(r) => r,
        None => return,
    };
    reach("C22.registered");
    check(outputs(ME, &r).silent(), "C22.no_payment");
    check(latest == base + 1, "C22.next_id");
    let full = label.map(|x| format!("{sender}/{x}"));
    let d = match get(&w, base) {
        Some(d) => d,
        None => return check(false, "C22.stored"),
    };
    check(d.bearer == bearer && d.creator == sender && d.denom == denom && d.root == root && d.label == full && d.closed.is_none(), "C22.stored");
    if bearer {
        check(d.signer == ibcx_airdrop::verify::pub_to_addr(Binary(hex::decode(PUB).unwrap()), "osmo").unwrap() && d.key == hex::decode(PUB).unwrap(), "C22.signer");
    }
    check(Z::u128(d.total).eq(Z::u128(paid)) & d.claimed.is_zero(), "C22.funded");
    check(d.created == 12_345, "C22.created_at");
    // reported under its id and its label
    let q = |id: AirdropId| -> Option<GetAirdropResponse> { query(w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::GetAirdrop { id }).ok().map(|b| from_json(b).unwrap()) };
    let same_resp = |g: Option<GetAirdropResponse>| match g {
        Some(GetAirdropResponse::Open { id, creator, denom: dn, total_amount, total_claimed, merkle_root, closed_at, label: lb, created_at, .. }) => {
            (!bearer && id == base && creator == sender && dn == denom && merkle_root == root && closed_at.is_none() && lb == full && created_at == 12_345) & Z::u128(total_amount).eq(Z::u128(paid)) & total_claimed.is_zero()
        }
        Some(GetAirdropResponse::Bearer { id, creator, signer, signer_pub, denom: dn, total_amount, total_claimed, merkle_root, closed_at, label: lb, created_at, .. }) => {
            let a = ibcx_airdrop::verify::pub_to_addr(Binary(hex::decode(PUB).unwrap()), "osmo").unwrap();
            (bearer && id == base && creator == sender && dn == denom && merkle_root == root && closed_at.is_none() && lb == full && created_at == 12_345 && signer == a && signer_pub == PUB) & Z::u128(total_amount).eq(Z::u128(paid)) & total_claimed.is_zero()
        }
        None => false,
    };
    check(same_resp(q(AirdropId::Id(base))), "C22.reported");
    if let Some(l) = full.clone() {
        check(same_resp(q(AirdropId::Label(l))), "C22.reported_by_label");
    }
}
pub fn h_air_register() {
    register(false)
}
pub fn h_air_register_bearer() {
    register(true)
}
/// a new contract has no airdrops; the first gets number 0
pub fn h_air_new() {
    let mut w = World::default();
    let r = no_panic("C22.new", || instantiate(w.deps(), env_at(ME, 1_700_000_000), msg_info("anyone", vec![]), InstantiateMsg {}));
    check(r.is_ok(), "C22.new");
    check(get(&w, 0).is_none(), "C22.new_empty");
    for i in 0..2u64 {
        let m = RegisterPayload::Open { merkle_root: tree().root, denom: DENOM.into(), label: None };
        let a = u128_in("paid", 1, u128::MAX);
        check(run(&mut w, "alice", vec![coin_of(DENOM, a)], ExecuteMsg::Register(m)).is_some(), "C22.first");
        match get(&w, i) {
            Some(d) => check(Z::u128(d.total).eq(Z::u128(a)), "C22.first"),
            None => check(false, "C22.first"),
        }
    }
    reach("C22.new");
}

/// two airdrops: `id` is acted upon, `oid` is another one
struct Two {
    w: World,
    id: u64,
    oid: u64,
    d: Drop,
    o: Drop,
}
fn two(bearer: bool, closed: bool) -> Two {
    let mut w = World::default();
    let (id, oid, d, o) = match choose("background", 3) {
        0 => (2, 1, any_drop("drop", bearer, "creator", Some("x"), DENOM, closed), any_drop("other", false, "zoe", Some("x"), DENOM, false)),
        1 => (0, 1, any_drop("drop", bearer, "creator", None, ATOM, closed), any_drop("other", true, "creator", Some("x"), DENOM, false)),
        _ => (258, 2, any_drop("drop", bearer, "creator", Some("x/"), DENOM, closed), any_drop("other", bearer, "creator", Some("x"), ATOM, true)),
    };
    LATEST_AIRDROP_ID.save(&mut w.st, &(id + oid + 1)).unwrap();
    put(&mut w, oid, &o);
    put(&mut w, id, &d);
    // somebody has claimed already
    CLAIM_LOGS.save(&mut w.st, (id, "mallory"), &Uint128::one()).unwrap();
    Two { w, id, oid, d, o }
}
impl Two {
    /// by number, or by label if it has one
    fn name(&self) -> AirdropId {
        match &self.d.label {
            Some(l) if choose("by_label", 2) == 1 => AirdropId::Label(l.clone()),
            _ => AirdropId::Id(self.id),
        }
    }
    fn now(&self) -> Drop {
        get(&self.w, self.id).unwrap()
    }
}
fn other_kept(t: &Two) -> bool {
    match get(&t.w, t.oid) {
        Some(o) => same(&o, &t.o),
        None => false,
    }
}

/// C23: funding
pub fn h_air_fund() {
    let bearer = choose("bearer", 2) == 1;
    let mut t = two(bearer, choose("closed", 2) == 1);
    let sender = ["creator", "zoe", "creato", "creatorx", "signer", ME][choose("sender", 6)];
    let (funds, paid_ok, paid) = any_payment(&t.d.denom);
    let id = t.name();
    let fits = (Z::u128(t.d.total) + Z::u128(paid)).le(Z::k(u128::MAX));
    let r = run_live("C23.no_panic", &mut t.w, sender, funds, ExecuteMsg::Fund(id));
    let may = sender == "creator" && t.d.closed.is_none();
    check(r.is_some() == (may & paid_ok & fits), "C23.iff");
    check(other_kept(&t), "C23.others_kept");
    let d = t.now();
    check(same_fixed(&d, &t.d) & same_closed(&d, &t.d) & Z::u128(d.claimed).eq(Z::u128(t.d.claimed)), "C23.frame");
    if let Some(r) = r {
        reach("C23.funded");
        check(outputs(ME, &r).silent(), "C23.no_payment");
        check(Z::u128(d.total).eq(Z::u128(t.d.total) + Z::u128(paid)), "C23.total");
    } else {
        check(Z::u128(d.total).eq(Z::u128(t.d.total)), "C23.refused");
    }
}

/// C24: claiming from an open airdrop, by anybody for anybody
fn any_proof() -> (Vec<String>, Option<usize>) {
    let t = tree();
    let k = choose("proof", 8);
    match k {
        0..=3 => (t.proofs[k].clone(), Some(k)),
        4 => (vec![], None),
        5 => (t.proofs[0][..1].to_vec(), None),
        6 => (vec!["zz".into()], None),
        _ => (t.proofs[0].iter().chain(&t.proofs[0]).cloned().collect(), None),
    }
}
fn open_claim(id: AirdropId, amount: Uint128, account: Option<String>, merkle_proof: Vec<String>) -> ClaimPayload {
    ClaimPayload::Open { airdrop: id, amount, account, merkle_proof }
}
/// marks the list as claimed in the airdrop under test, or in another one, which does not count
fn mark_claimed(t: &mut Two, here: bool) {
    for (k, a) in LEAVES {
        CLAIM_LOGS.save(&mut t.w.st, (if here { t.id } else { t.oid }, k), &Uint128::new(a)).unwrap();
    }
}
struct Attempt {
    who: String,
    amount: Uint128,
    proof: (Vec<String>, Option<usize>),
    id: AirdropId,
    /// sent by another account on behalf of `who`
    on_behalf: bool,
    already: bool,
}
fn claim_open(t: &mut Two, a: Attempt) -> bool {
    mark_claimed(t, a.already);
    let (sender, account) = if a.on_behalf { (["anyone", "creator"][choose("by", 2)].to_string(), Some(a.who.clone())) } else { (a.who.clone(), None) };
    let fits = (Z::u128(t.d.claimed) + Z::u128(a.amount)).le(Z::u128(t.d.total));
    let r = run_live("C24.no_panic", &mut t.w, &sender, vec![], ExecuteMsg::Claim(open_claim(a.id, a.amount, account, a.proof.0)));
    let in_tree = match a.proof.1 {
        Some(i) => (a.who == LEAVES[i].0) & Z::u128(a.amount).eq(Z::k(LEAVES[i].1)),
        None => false,
    };
    check(r.is_some() == (in_tree & fits & t.d.closed.is_none() & !a.already), "C24.iff_listed");
    check(other_kept(t), "C24.others_kept");
    let d = t.now();
    check(same_fixed(&d, &t.d) & same_closed(&d, &t.d) & Z::u128(d.total).eq(Z::u128(t.d.total)), "C24.frame");
    match r {
        Some(r) => {
            reach("C24.claimed");
            let o = outputs(ME, &r);
            check(o.other == 0 && o.replies == 0 && o.flows.len() == 1 && matches!(o.flows[0].kind, Kind::Send), "C24.one_payment");
            check(o.received(&a.who, &t.d.denom).eq(Z::u128(a.amount)), "C24.pays_claimer");
            check(Z::u128(d.claimed).eq(Z::u128(t.d.claimed) + Z::u128(a.amount)), "C24.counted");
            check(Z::u128(d.claimed).le(Z::u128(d.total)), "C24.within_total");
            true
        }
        None => {
            check(Z::u128(d.claimed).eq(Z::u128(t.d.claimed)), "C24.refused");
            false
        }
    }
}
/// any name, any amount, the proofs of the tree
fn claim_any(len: usize) {
    let mut t = two(false, false);
    let k = choose("proof", 4);
    let a = Attempt { who: letters("claimer", len), amount: u128_any("amount"), proof: (tree().proofs[k].clone(), Some(k)), id: AirdropId::Id(t.id), on_behalf: false, already: false };
    claim_open(&mut t, a);
}
pub fn h_air_claim_3() {
    claim_any(3)
}
pub fn h_air_claim_5() {
    claim_any(5)
}
pub fn h_air_claim_8() {
    claim_any(8)
}
/// the circumstances of a claim
pub fn h_air_claim() {
    let mut t = two(false, choose("closed", 2) == 1);
    let who = ["alice", "dave", "eve"][choose("claimer", 3)].to_string();
    let a = Attempt { who, amount: u128_any("amount"), proof: any_proof(), id: t.name(), on_behalf: choose("for_somebody_else", 2) == 1, already: choose("already", 2) == 1 };
    claim_open(&mut t, a);
}
/// the root decides, all of it: with one bit of it changed nothing is on the list any more
pub fn h_air_root() {
    let bearer = choose("bearer", 2) == 1;
    let mut t = two(bearer, false);
    let i = choose("byte", 32);
    let mut root = hex::decode(tree().root).unwrap();
    root[i] ^= 1 << (i % 8);
    t.d.root = hex::encode(root);
    put(&mut t.w, t.id, &t.d);
    w_signs_all(&mut t.w);
    let (proof, amount) = (tree().proofs[0].clone(), Uint128::new(LEAVES[0].1));
    let c = if bearer { ClaimPayload::Bearer { airdrop: AirdropId::Id(t.id), amount, account: None, claim_hash: "alice".into(), claim_sign: SIG.into(), merkle_proof: proof } } else { open_claim(AirdropId::Id(t.id), amount, None, proof) };
    let r = run_live(if bearer { "C27.root" } else { "C24.root" }, &mut t.w, "alice", vec![], ExecuteMsg::Claim(c));
    if bearer {
        check(r.is_none(), "C27.root");
        reach("C27.root")
    } else {
        check(r.is_none(), "C24.root");
        reach("C24.root")
    }
}
/// claim keys of any form: upper case, slashes, signs, spaces; alike ones are different keys
pub fn h_air_bearer_form() {
    let mut t = two(true, false);
    let keys = ["Ab/=", "ab/", "ab/=", " ab"];
    let a = Uint128::new(100);
    let l: Vec<[u8; 32]> = keys.iter().map(|k| leaf(k, a)).collect();
    let h = |b: [u8; 32]| hex::encode(b);
    let (x, y) = (node(l[0], l[1]), node(l[2], l[3]));
    t.d.root = h(node(x, y));
    put(&mut t.w, t.id, &t.d);
    let proofs = [vec![h(l[1]), h(y)], vec![h(l[0]), h(y)], vec![h(l[3]), h(x)], vec![h(l[2]), h(x)]];
    assume((Z::u128(t.d.claimed) + Z::k(200)).le(Z::u128(t.d.total)));
    let (i, j) = (choose("first", 4), choose("second", 4));
    let mut claim = |k: usize| {
        signs(&mut t.w, keys[k], "carl", a);
        let c = Bearer { key: keys[k].into(), amount: a, who: "carl".into(), sign: SIG.into() };
        run_live("C27.form", &mut t.w, "carl", vec![], ExecuteMsg::Claim(bearer_claim(AirdropId::Id(t.id), &c, None, proofs[k].clone()))).is_some()
    };
    check(claim(i), "C27.form");
    check(claim(j) == (i != j), "C27.form_once");
    reach("C27.form");
}
/// lists of one, two and three
fn small_tree() -> (String, Vec<Vec<String>>) {
    let l: Vec<[u8; 32]> = LEAVES.iter().map(|(k, a)| leaf(k, Uint128::new(*a))).collect();
    let h = |b: [u8; 32]| hex::encode(b);
    match choose("listed", 3) {
        0 => (h(l[0]), vec![vec![]]),
        1 => (h(node(l[0], l[1])), vec![vec![h(l[1])], vec![h(l[0])]]),
        _ => (h(node(node(l[0], l[1]), l[2])), vec![vec![h(l[1]), h(l[2])], vec![h(l[0]), h(l[2])], vec![h(node(l[0], l[1]))]]),
    }
}
pub fn h_air_claim_small() {
    let mut t = two(false, false);
    let (root, proofs) = small_tree();
    t.d.root = root;
    put(&mut t.w, t.id, &t.d);
    let who = choose("claimer", 4);
    let k = choose("proof", proofs.len());
    let a = Attempt { who: LEAVES[who].0.into(), amount: u128_any("amount"), proof: (proofs[k].clone(), Some(k)), id: t.name(), on_behalf: false, already: false };
    claim_open(&mut t, a);
}
/// a claim is not made twice, whatever else changes
pub fn h_air_claim_once() {
    let mut t = two(false, false);
    let k = choose("first", 4);
    let a = Attempt { who: LEAVES[k].0.into(), amount: Uint128::new(LEAVES[k].1), proof: (tree().proofs[k].clone(), Some(k)), id: t.name(), on_behalf: choose("for_somebody_else", 2) == 1, already: false };
    if !claim_open(&mut t, a) {
        return;
    }
    let id = t.name();
    let (sender, account) = if choose("again_for_somebody_else", 2) == 1 { ("other", Some(LEAVES[k].0.to_string())) } else { (LEAVES[k].0, None) };
    let r = run(&mut t.w, sender, vec![], ExecuteMsg::Claim(open_claim(id, u128_any("again_amount"), account, any_proof().0)));
    check(r.is_none(), "C24.once");
    // the others can still claim
    let j = (k + 1) % 4;
    let d = t.now();
    assume((Z::u128(d.claimed) + Z::k(LEAVES[j].1)).le(Z::u128(d.total)));
    let r = run_live("C24.next", &mut t.w, LEAVES[j].0, vec![], ExecuteMsg::Claim(open_claim(AirdropId::Id(t.id), Uint128::new(LEAVES[j].1), None, tree().proofs[j].clone())));
    check(r.is_some(), "C24.next");
    reach("C24.once");
}

/// C25: closing
pub fn h_air_close() {
    let bearer = choose("bearer", 2) == 1;
    let mut t = two(bearer, choose("closed", 2) == 1);
    let sender = ["creator", "zoe", "creato", "creatorx", "signer", ME][choose("sender", 6)];
    let id = t.name();
    let r = run_live("C25.no_panic", &mut t.w, sender, vec![], ExecuteMsg::Close(id));
    check(r.is_some() == (sender == "creator" && t.d.closed.is_none()), "C25.iff");
    check(other_kept(&t), "C25.others_kept");
    let d = t.now();
    check(same_fixed(&d, &t.d) & Z::u128(d.total).eq(Z::u128(t.d.total)) & Z::u128(d.claimed).eq(Z::u128(t.d.claimed)), "C25.frame");
    let r = match r {
        Some(r) => r,
        None => return check(same_closed(&d, &t.d), "C25.refused"),
    };
    reach("C25.closed");
    let o = outputs(ME, &r);
    check(o.other == 0 && o.replies == 0 && o.flows.len() == 1 && matches!(o.flows[0].kind, Kind::Send), "C25.one_payment");
    check(o.received("creator", &t.d.denom).eq(Z::u128(t.d.total) - Z::u128(t.d.claimed)), "C25.remainder");
    check(d.closed.is_some(), "C25.marked");
    // nothing more
    let again = match choose("then", 3) {
        0 => run(&mut t.w, "creator", vec![], ExecuteMsg::Close(AirdropId::Id(t.id))),
        1 => run(&mut t.w, "creator", vec![coin_of(&t.d.denom, u128_in("more", 1, 1000))], ExecuteMsg::Fund(AirdropId::Id(t.id))),
        _ => {
            let (p, a) = (tree().proofs[0].clone(), Uint128::new(LEAVES[0].1));
            w_signs_all(&mut t.w);
            let c = if bearer {
                ClaimPayload::Bearer { airdrop: AirdropId::Id(t.id), amount: a, account: None, claim_hash: "alice".into(), claim_sign: SIG.into(), merkle_proof: p }
            } else {
                open_claim(AirdropId::Id(t.id), a, None, p)
            };
            run(&mut t.w, "alice", vec![], ExecuteMsg::Claim(c))
        }
    };
    check(again.is_none(), "C25.final");
}
fn w_signs_all(w: &mut World) {
    w.api.signed = Some(Box::new(|_, _, _| true));
}

/// C26: what is outstanding over all airdrops changes exactly by what is paid in and out
pub fn h_air_solvency() {
    let bearer = choose("bearer", 2) == 1;
    let mut t = two(bearer, choose("closed", 2) == 1);
    w_signs_all(&mut t.w);
    let ids = [t.id, t.oid, t.id + t.oid + 1];
    let out = |w: &World, denom: &str| -> Z {
        let mut z = Z::k(0);
        for i in ids {
            if let Some(d) = get(w, i) {
                if d.closed.is_none() && d.denom == denom {
                    z = z + Z::u128(d.total) - Z::u128(d.claimed)
                }
            }
        }
        z
    };
    let before = (out(&t.w, DENOM), out(&t.w, ATOM));
    let paid = u128_any("paid");
    let pays = || coin_of([DENOM, ATOM][choose("pays", 2)], paid);
    let id = if choose("which", 2) == 0 { AirdropId::Id(t.id) } else { AirdropId::Id(t.oid) };
    let (sender, funds, m) = match choose("op", 4) {
        0 => ("zoe", vec![pays()], ExecuteMsg::Register(RegisterPayload::Open { merkle_root: tree().root, denom: [DENOM, ATOM][choose("denom", 2)].into(), label: None })),
        1 => (["creator", "zoe"][choose("sender", 2)], vec![pays()], ExecuteMsg::Fund(id)),
        2 => (["creator", "zoe"][choose("sender", 2)], vec![], ExecuteMsg::Close(id)),
        _ => {
            let (proof, amount, open) = (any_proof().0, u128_any("amount"), choose("as_open", 2) == 1);
            let k = ["alice", "bob", "carol", "dave", "eve"][choose("key", 5)];
            let c = if open { open_claim(id, amount, Some(k.into()), proof) } else { ClaimPayload::Bearer { airdrop: id, amount, account: None, claim_hash: k.into(), claim_sign: SIG.into(), merkle_proof: proof } };
            ("eve", vec![], ExecuteMsg::Claim(c))
        }
    };
    let received: Vec<Coin> = funds.clone();
    if let Some(r) = run(&mut t.w, sender, funds, m) {
        reach("C26.step");
        let o = outputs(ME, &r);
        check(o.other == 0 && o.touches_only(&[DENOM, ATOM]), "C26.only_transfers");
        check((out(&t.w, DENOM) - before.0).eq(amt_in(&received, DENOM) - o.spent(ME, DENOM)), "C26.conserved");
        check((out(&t.w, ATOM) - before.1).eq(amt_in(&received, ATOM) - o.spent(ME, ATOM)), "C26.conserved");
    }
    for i in ids {
        if let Some(d) = get(&t.w, i) {
            check(Z::u128(d.claimed).le(Z::u128(d.total)), "C26.claimed_within_total");
        }
    }
}

/// C27: claiming from a bearer airdrop
struct Bearer {
    key: String,
    amount: Uint128,
    who: String,
    sign: String,
}
fn bearer_claim(id: AirdropId, c: &Bearer, account: Option<String>, merkle_proof: Vec<String>) -> ClaimPayload {
    ClaimPayload::Bearer { airdrop: id, amount: c.amount, account, claim_hash: c.key.clone(), claim_sign: c.sign.clone(), merkle_proof }
}
/// the signer has signed claim key "bob" for account "carl" with some amount, and nothing else
fn signs(w: &mut World, key: &str, who: &str, amount: Uint128) {
    let digest = sha(format!("{key}/{who}/{amount}").as_bytes());
    w.api.signed = Some(Box::new(move |h, s, p| h == digest && s == hex::decode(SIG).unwrap() && p == hex::decode(PUB).unwrap()));
}
struct Circumstances {
    proof: (Vec<String>, Option<usize>),
    id: AirdropId,
    on_behalf: bool,
    already: bool,
    signed: (&'static str, &'static str, u128),
}
fn claim_bearer(t: &mut Two, c: &Bearer, k: Circumstances) -> bool {
    signs(&mut t.w, k.signed.0, k.signed.1, Uint128::new(k.signed.2));
    mark_claimed(t, k.already);
    let (sender, account) = if k.on_behalf { (["anyone", "creator", "signer"][choose("by", 3)].to_string(), Some(c.who.clone())) } else { (c.who.clone(), None) };
    let fits = (Z::u128(t.d.claimed) + Z::u128(c.amount)).le(Z::u128(t.d.total));
    let r = run_live("C27.no_panic", &mut t.w, &sender, vec![], ExecuteMsg::Claim(bearer_claim(k.id, c, account, k.proof.0)));
    let in_tree = match k.proof.1 {
        Some(i) => (c.key == LEAVES[i].0) & Z::u128(c.amount).eq(Z::k(LEAVES[i].1)),
        None => false,
    };
    let signed = (c.key == k.signed.0) & (c.who == k.signed.1) & Z::u128(c.amount).eq(Z::k(k.signed.2)) & (c.sign == SIG);
    check(r.is_some() == (in_tree & signed & fits & t.d.closed.is_none() & !k.already), "C27.iff_signed");
    check(other_kept(t), "C27.others_kept");
    let d = t.now();
    check(same_fixed(&d, &t.d) & same_closed(&d, &t.d) & Z::u128(d.total).eq(Z::u128(t.d.total)), "C27.frame");
    match r {
        Some(r) => {
            reach("C27.claimed");
            let o = outputs(ME, &r);
            check(o.other == 0 && o.replies == 0 && o.flows.len() == 1 && matches!(o.flows[0].kind, Kind::Send), "C27.one_payment");
            check(o.received(&c.who, &t.d.denom).eq(Z::u128(c.amount)), "C27.pays_claimer");
            check(Z::u128(d.claimed).eq(Z::u128(t.d.claimed) + Z::u128(c.amount)), "C27.counted");
            check(Z::u128(d.claimed).le(Z::u128(d.total)), "C27.within_total");
            true
        }
        None => {
            check(Z::u128(d.claimed).eq(Z::u128(t.d.claimed)), "C27.refused");
            false
        }
    }
}
fn plain(t: &Two, k: usize, signed: (&'static str, &'static str, u128)) -> Circumstances {
    Circumstances { proof: (tree().proofs[k].clone(), Some(k)), id: AirdropId::Id(t.id), on_behalf: false, already: false, signed }
}
/// any claim key
pub fn h_air_bearer_key() {
    let mut t = two(true, false);
    let k = choose("proof", 4);
    let c = Bearer { key: letters("key", 3), amount: u128_any("amount"), who: "carl".into(), sign: SIG.into() };
    let k = plain(&t, k, ("bob", "carl", 250));
    claim_bearer(&mut t, &c, k);
}
/// any account
pub fn h_air_bearer_who() {
    let mut t = two(true, false);
    let signed = [("bob", "carl", 250), ("bob", "carl", 251), ("alice", "carl", 250)][choose("signed", 3)];
    let c = Bearer { key: "bob".into(), amount: u128_any("amount"), who: letters("claimer", 4), sign: SIG.into() };
    let k = plain(&t, 1, signed);
    claim_bearer(&mut t, &c, k);
}
/// the circumstances of a claim
pub fn h_air_bearer() {
    let mut t = two(true, choose("closed", 2) == 1);
    let c = Bearer { key: ["bob", "alice"][choose("key", 2)].into(), amount: u128_any("amount"), who: ["carl", "bob"][choose("who", 2)].into(), sign: [SIG, "00", "zz"][choose("sign", 3)].into() };
    let k = Circumstances { proof: any_proof(), id: t.name(), on_behalf: choose("for_somebody_else", 2) == 1, already: choose("already", 2) == 1, signed: ("bob", "carl", 250) };
    claim_bearer(&mut t, &c, k);
}
/// lists of one, two and three
pub fn h_air_bearer_small() {
    let mut t = two(true, false);
    let (root, proofs) = small_tree();
    t.d.root = root;
    put(&mut t.w, t.id, &t.d);
    let (key, k) = (choose("claim_key", 4), choose("proof", proofs.len()));
    let c = Bearer { key: LEAVES[key].0.into(), amount: u128_any("amount"), who: "carl".into(), sign: SIG.into() };
    let mut cc = plain(&t, k, (LEAVES[key].0, "carl", LEAVES[key].1));
    cc.proof.0 = proofs[k].clone();
    claim_bearer(&mut t, &c, cc);
}
/// the same claim key again, for anybody, with any signature
pub fn h_air_bearer_once() {
    let mut t = two(true, false);
    let k = choose("first", 4);
    let c = Bearer { key: LEAVES[k].0.into(), amount: Uint128::new(LEAVES[k].1), who: "carl".into(), sign: SIG.into() };
    let mut cc = plain(&t, k, (LEAVES[k].0, "carl", LEAVES[k].1));
    cc.id = t.name();
    cc.on_behalf = choose("for_somebody_else", 2) == 1;
    if !claim_bearer(&mut t, &c, cc) {
        return;
    }
    w_signs_all(&mut t.w);
    let c2 = Bearer { key: c.key, amount: u128_any("again_amount"), who: ["anyone", "carl"][choose("again_who", 2)].into(), sign: SIG.into() };
    let id = t.name();
    let r = run(&mut t.w, &c2.who, vec![], ExecuteMsg::Claim(bearer_claim(id, &c2, None, any_proof().0)));
    check(r.is_none(), "C27.once");
    reach("C27.once");
}
/// claims are made in the way the airdrop was registered
pub fn h_air_kind() {
    let bearer = choose("bearer", 2) == 1;
    let mut t = two(bearer, false);
    w_signs_all(&mut t.w);
    let (proof, amount) = (tree().proofs[0].clone(), Uint128::new(LEAVES[0].1));
    let c = if bearer { open_claim(AirdropId::Id(t.id), amount, Some("alice".into()), proof) } else { ClaimPayload::Bearer { airdrop: AirdropId::Id(t.id), amount, account: None, claim_hash: "alice".into(), claim_sign: SIG.into(), merkle_proof: proof } };
    let r = run_live("C27.kind_no_panic", &mut t.w, "alice", vec![], ExecuteMsg::Claim(c));
    check(r.is_none(), "C27.kind");
    reach("C27.kind");
}

/// C28: checking a claim beforehand agrees with making it
pub fn h_air_verify() {
    let bearer = choose("bearer", 2) == 1;
    let mut t = two(bearer, choose("closed", 2) == 1);
    let already = choose("already", 2) == 1;
    if already {
        CLAIM_LOGS.save(&mut t.w.st, (t.id, "bob"), &Uint128::new(250)).unwrap();
    }
    signs(&mut t.w, "bob", "bob", Uint128::new(250));
    let amount = u128_any("amount");
    let (proof, _) = any_proof();
    let key = ["alice", "bob"][choose("key", 2)];
    let as_bearer = choose("as_bearer", 2) == 1;
    let account = ["bob", "!bad", "alice"][choose("account", 3)];
    let id = match choose("id", 3) {
        0 => AirdropId::Id(t.id),
        1 => AirdropId::Label(t.d.label.clone().unwrap_or("creator/y".into())),
        _ => AirdropId::Id(7),
    };
    let c = if as_bearer {
        bearer_claim(id, &Bearer { key: key.into(), amount, who: account.into(), sign: SIG.into() }, Some(account.into()), proof)
    } else {
        open_claim(id, amount, Some(account.into()), proof)
    };
    // amounts that add up to more than any amount can be are refused by both
    assume((Z::u128(t.d.claimed) + Z::u128(amount)).le(Z::k(u128::MAX)));
    let q = no_panic("C28.no_panic", || query(t.w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::VerifyClaim { claim: c.clone() }));
    let says = match q {
        Ok(b) => from_json::<VerifyClaimResponse>(b).unwrap().valid,
        Err(_) => false,
    };
    let r = run_live("C28.no_panic", &mut t.w, "anyone", vec![], ExecuteMsg::Claim(c));
    check(r.is_some() == says, "C28.agrees");
    if says {
        reach("C28.valid");
    }
}
/// an account has to be named
pub fn h_air_verify_anonymous() {
    let bearer = choose("bearer", 2) == 1;
    let t = two(bearer, choose("closed", 2) == 1);
    let (proof, amount) = (any_proof().0, u128_any("amount"));
    let c = if bearer { bearer_claim(AirdropId::Id(t.id), &Bearer { key: "bob".into(), amount, who: "".into(), sign: SIG.into() }, None, proof) } else { open_claim(AirdropId::Id(t.id), amount, None, proof) };
    let q = no_panic("C28.anonymous", || query(t.w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::VerifyClaim { claim: c }));
    if let Ok(b) = q {
        check(!from_json::<VerifyClaimResponse>(b).unwrap().valid, "C28.anonymous");
    }
    reach("C28.anonymous");
}
fn any_order() -> (Option<RangeOrder>, bool) {
    match choose("order", 3) {
        0 => (None, false),
        1 => (Some(RangeOrder::Asc), false),
        _ => (Some(RangeOrder::Desc), true),
    }
}
/// walks through a listing page by page
fn pages<K: Clone>(limit: u32, mut next: impl FnMut(Option<K>, u32) -> Vec<K>) -> Vec<K> {
    let mut got: Vec<K> = vec![];
    for _ in 0..8 {
        let p = next(got.last().cloned(), limit);
        if p.len() > limit as usize {
            check(false, "C28.page_size");
        }
        let done = p.is_empty();
        got.extend(p);
        if done {
            break;
        }
    }
    got
}
fn as_drop(g: &GetAirdropResponse) -> (u64, Drop) {
    match g.clone() {
        GetAirdropResponse::Open { id, creator, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } => {
            (id, Drop { bearer: false, creator, denom, total: total_amount, claimed: total_claimed, root: merkle_root, label, created: created_at, closed: closed_at, signer: String::new(), key: vec![] })
        }
        GetAirdropResponse::Bearer { id, creator, signer, signer_pub, denom, total_amount, total_claimed, merkle_root, label, created_at, closed_at } => {
            (id, Drop { bearer: true, creator, denom, total: total_amount, claimed: total_claimed, root: merkle_root, label, created: created_at, closed: closed_at, signer, key: hex::decode(signer_pub).unwrap() })
        }
    }
}
/// one airdrop, by number or by label
pub fn h_air_get() {
    let bearer = choose("bearer", 2) == 1;
    let t = two(bearer, choose("closed", 2) == 1);
    let (id, want) = match choose("id", 6) {
        0 => (AirdropId::Id(t.id), Some((t.id, &t.d))),
        1 => (AirdropId::Id(t.oid), Some((t.oid, &t.o))),
        2 => (AirdropId::Id(t.id + t.oid + 1), None),
        3 => (t.name(), Some((t.id, &t.d))),
        4 => (AirdropId::Label(t.o.label.clone().unwrap()), Some((t.oid, &t.o))),
        _ => (AirdropId::Label("x".into()), None),
    };
    let q = no_panic("C28.get", || query(t.w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::GetAirdrop { id }));
    check(q.is_ok() == want.is_some(), "C28.get");
    if let (Ok(b), Some((i, d))) = (q, want) {
        let (id, a) = as_drop(&from_json::<GetAirdropResponse>(b).unwrap());
        check(id == i && same(&a, d), "C28.get");
        reach("C28.get");
    }
}
pub fn h_air_list() {
    let mut w = World::default();
    LATEST_AIRDROP_ID.save(&mut w.st, &5u64).unwrap();
    let spec: [(bool, &str, Option<&str>); 5] = [(false, "alice", Some("x")), (true, "bob", None), (false, "bob", Some("b")), (true, "alice", Some("a")), (false, "alicex", None)];
    let n = choose("n", 6);
    let drops: Vec<Drop> = (0..n).map(|i| any_drop(&format!("d{i}"), spec[i].0, spec[i].1, spec[i].2, [DENOM, ATOM][i % 2], i == 2)).collect();
    for (i, d) in drops.iter().enumerate() {
        put(&mut w, i as u64, d);
    }
    let limit = 1 + choose("limit", 3) as u32;
    let (order, desc) = any_order();
    let kind = choose("by", 6);
    let list = |option: ListAirdropsQueryOptions| -> Vec<GetAirdropResponse> {
        let r = no_panic("C28.list", || query(w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::ListAirdrops { option }));
        match r {
            Ok(b) => from_json::<ListAirdropsResponse>(b).unwrap().0,
            Err(_) => {
                check(false, "C28.list");
                vec![]
            }
        }
    };
    let id_of = |g: &GetAirdropResponse| {
        let (id, a) = as_drop(g);
        check((id as usize) < n && same(&a, &drops[id as usize]), "C28.list_values");
        id
    };
    let lim = Some(limit);
    let got: Vec<u64> = match kind {
        0 => pages(limit, |k, _| list(ListAirdropsQueryOptions::ByID { start_after: k, limit: lim, order: order.clone() }).iter().map(id_of).collect()),
        1 => pages(limit, |k, _| list(ListAirdropsQueryOptions::ByType { typ: AirdropType::Open, start_after: k, limit: lim, order: order.clone() }).iter().map(id_of).collect()),
        2 => pages(limit, |k, _| list(ListAirdropsQueryOptions::ByCreator { creator: "alice".into(), start_after: k, limit: lim, order: order.clone() }).iter().map(id_of).collect()),
        3 => pages(limit, |k, _| list(ListAirdropsQueryOptions::ByType { typ: AirdropType::Bearer, start_after: k, limit: lim, order: order.clone() }).iter().map(id_of).collect()),
        4 => pages(limit, |k, _| list(ListAirdropsQueryOptions::ByCreator { creator: "bob".into(), start_after: k, limit: lim, order: order.clone() }).iter().map(id_of).collect()),
        _ => pages(limit, |k: Option<u64>, _| {
            let after = k.and_then(|k| drops[k as usize].label.clone());
            list(ListAirdropsQueryOptions::ByLabel { start_after: after, limit: lim, order: order.clone() }).iter().map(id_of).collect()
        }),
    };
    let mut want: Vec<u64> = match kind {
        0 => (0..n as u64).collect(),
        1 => (0..n as u64).filter(|i| !spec[*i as usize].0).collect(),
        2 => (0..n as u64).filter(|i| spec[*i as usize].1 == "alice").collect(),
        3 => (0..n as u64).filter(|i| spec[*i as usize].0).collect(),
        4 => (0..n as u64).filter(|i| spec[*i as usize].1 == "bob").collect(),
        _ => {
            let mut v: Vec<(String, u64)> = drops.iter().enumerate().filter_map(|(i, d)| d.label.clone().map(|l| (l, i as u64))).collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect()
        }
    };
    if desc {
        want.reverse();
    }
    reach("C28.list");
    check(got == want, "C28.list_complete");
}
pub fn h_air_list_claims() {
    let mut t = two(choose("bearer", 2) == 1, choose("closed", 2) == 1);
    CLAIM_LOGS.remove(&mut t.w.st, (t.id, "mallory"));
    let n = choose("n", 5);
    let am: Vec<Uint128> = (0..n).map(|i| u128_any(&format!("amount{i}"))).collect();
    for (i, a) in am.iter().enumerate() {
        CLAIM_LOGS.save(&mut t.w.st, (t.id, LEAVES[i].0), a).unwrap();
    }
    CLAIM_LOGS.save(&mut t.w.st, (t.oid, "bob"), &Uint128::one()).unwrap();
    CLAIM_LOGS.save(&mut t.w.st, (t.id + 1, "bob"), &Uint128::one()).unwrap();
    let limit = 1 + choose("limit", 3) as u32;
    let (order, desc) = any_order();
    let id = t.name();
    let got: Vec<String> = pages(limit, |k, _| {
        let q = QueryMsg::ListClaims { airdrop: id.clone(), start_after: k, limit: Some(limit), order: order.clone() };
        let r = no_panic("C28.claims", || query(t.w.rdeps(), env_at(ME, 1_700_000_000), q));
        check(r.is_ok(), "C28.claims");
        match r {
            Ok(b) => from_json::<ListClaimsResponse>(b)
                .unwrap()
                .0
                .into_iter()
                .map(|c| {
                    let i = LEAVES.iter().position(|x| x.0 == c.claim_key).unwrap_or(9);
                    check(i < n && c.id == t.id, "C28.claims_values");
                    if i < n {
                        check(Z::u128(am[i]).eq(Z::u128(c.amount)), "C28.claims_values");
                    }
                    c.claim_key
                })
                .collect(),
            Err(_) => vec![],
        }
    });
    let mut want: Vec<String> = LEAVES.iter().take(n).map(|x| x.0.to_string()).collect();
    if desc {
        want.reverse();
    }
    reach("C28.claims");
    check(got == want, "C28.claims_complete");
    // one by one
    let k = choose("which", 4);
    let q = no_panic("C28.claim", || query(t.w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::GetClaim { airdrop: id, claim_key: LEAVES[k].0.into() }));
    check(q.is_ok() == (k < n), "C28.claim");
    if let Ok(b) = q {
        let c: GetClaimResponse = from_json(b).unwrap();
        check((c.id == t.id && c.claim_key == LEAVES[k].0) & Z::u128(c.amount).eq(Z::u128(am[k])), "C28.claim");
    }
}
pub fn h_air_labels() {
    let mut w = World::default();
    let labels = ["alice/x", "alice/x/y", "alicea/", "bob/x"];
    let n = choose("n", 5);
    for (i, l) in labels.iter().take(n).enumerate() {
        LABELS.save(&mut w.st, l, &(i as u64)).unwrap();
    }
    let limit = 1 + choose("limit", 3) as u32;
    let (order, desc) = any_order();
    let mut want: Vec<(String, u64)> = labels.iter().take(n).enumerate().map(|(i, l)| (l.to_string(), i as u64)).collect();
    want.sort();
    if desc {
        want.reverse();
    }
    let conv = |g: GetLabelResponse| (format!("{}/{}", g.creator, g.label), g.airdrop_id);
    let got = pages(limit, |k: Option<(String, u64)>, _| {
        let q = QueryMsg::ListLabels { start_after: k.map(|k| k.0), limit: Some(limit), order: order.clone() };
        match no_panic("C28.labels", || query(w.rdeps(), env_at(ME, 1_700_000_000), q)) {
            Ok(b) => from_json::<ListLabelsResponse>(b).unwrap().0.into_iter().map(|g| {
                check(g.creator == "alice" || g.creator == "bob" || g.creator == "alicea", "C28.label_creator");
                conv(g)
            }).collect(),
            Err(_) => {
                check(false, "C28.labels");
                vec![]
            }
        }
    });
    check(got == want, "C28.labels_complete");
    reach("C28.labels");
    let k = choose("which", 4);
    let q = no_panic("C28.label", || query(w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::GetLabel { label: labels[k].into() }));
    check(q.is_ok() == (k < n), "C28.label");
    if let Ok(b) = q {
        check(conv(from_json(b).unwrap()) == (labels[k].to_string(), k as u64), "C28.label");
    }
    let l = [0u64, 1, 17][choose("latest", 3)];
    LATEST_AIRDROP_ID.save(&mut w.st, &l).unwrap();
    let q: LatestAirdropResponse = from_json(no_panic("C28.latest", || query(w.rdeps(), env_at(ME, 1_700_000_000), QueryMsg::LatestAirdropId {})).unwrap()).unwrap();
    check(q.0 == l, "C28.latest");
}
