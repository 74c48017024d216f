//! The chain around a contract: storage, address API, queries, block and message accounting.
use crate::sym::*;
use cosmwasm_std::*;
use osmosis_std::types::osmosis::poolmanager::v1beta1::{MsgSwapExactAmountIn, MsgSwapExactAmountOut};
use osmosis_std::types::osmosis::tokenfactory::v1beta1::{MsgBurn, MsgCreateDenom, MsgMint};
use prost::Message;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::Bound;

#[derive(Default, Clone, PartialEq)]
pub struct Store(pub BTreeMap<Vec<u8>, Vec<u8>>);
impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.0.get(key).cloned()
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s > e {
                return Box::new(std::iter::empty());
            }
        }
        let b = (start.map_or(Bound::Unbounded, |x| Bound::Included(x.to_vec())), end.map_or(Bound::Unbounded, |x| Bound::Excluded(x.to_vec())));
        let it = self.0.range(b).map(|(k, v)| (k.clone(), v.clone()));
        match order {
            Order::Ascending => Box::new(it),
            Order::Descending => Box::new(it.rev()),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.0.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.0.remove(key);
    }
}

/// Address validation accepts what does not start with '!' and is at least 3 long, unchanged.
/// Signature verification is an arbitrary predicate, the same for the same arguments.
#[derive(Default)]
pub struct TestApi {
    pub sigs: RefCell<Vec<(Vec<u8>, Vec<u8>, Vec<u8>, bool)>>,
    /// if given, decides (digest, signature, public key) instead
    pub signed: Option<Box<dyn Fn(&[u8], &[u8], &[u8]) -> bool>>,
}
impl Api for TestApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.len() < 3 || human.starts_with('!') {
            return Err(StdError::generic_err("invalid address"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(CanonicalAddr::from(human.as_bytes()))
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8(canonical.to_vec()).unwrap()))
    }
    fn secp256k1_verify(&self, h: &[u8], s: &[u8], p: &[u8]) -> Result<bool, VerificationError> {
        if let Some(f) = &self.signed {
            return Ok(f(h, s, p));
        }
        let mut l = self.sigs.borrow_mut();
        for x in l.iter() {
            if x.0 == h && x.1 == s && x.2 == p {
                return Ok(x.3);
            }
        }
        let b = choose("sig_ok", 2) == 1;
        l.push((h.to_vec(), s.to_vec(), p.to_vec(), b));
        Ok(b)
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::unknown_err(1))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn debug(&self, _: &str) {}
}

type StargateFn = Box<dyn Fn(&str, &[u8]) -> StdResult<Binary>>;
type WasmFn = Box<dyn Fn(&str, &[u8]) -> StdResult<Binary>>;
#[derive(Default)]
pub struct TestQuerier {
    pub bank: Vec<(String, String, Uint128)>,
    pub stargate: Option<StargateFn>,
    pub smart: Option<WasmFn>,
}
fn wrap(r: StdResult<Binary>) -> QuerierResult {
    SystemResult::Ok(match r {
        Ok(b) => ContractResult::Ok(b),
        Err(_) => ContractResult::Err("query failed".into()),
    })
}
impl Querier for TestQuerier {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let q: QueryRequest<Empty> = match from_json(bin) {
            Ok(q) => q,
            Err(_) => return SystemResult::Err(SystemError::Unknown {}),
        };
        match q {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.bank.iter().find(|b| b.0 == address && b.1 == denom).map(|b| b.2).unwrap_or_default();
                let r = BalanceResponse::new(Coin { denom, amount: a });
                wrap(to_json_binary(&r))
            }
            QueryRequest::Stargate { path, data } => match &self.stargate {
                Some(f) => wrap(f(&path, &data)),
                None => SystemResult::Err(SystemError::UnsupportedRequest { kind: path }),
            },
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => match &self.smart {
                Some(f) => wrap(f(&contract_addr, &msg)),
                None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
            },
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() }),
        }
    }
}

#[derive(Default)]
pub struct World {
    pub st: Store,
    pub api: TestApi,
    pub q: TestQuerier,
    /// the storage also holds what the operation at hand has nothing to do with
    pub full: bool,
}
impl World {
    pub fn deps(&mut self) -> DepsMut<'_> {
        DepsMut { storage: &mut self.st, api: &self.api, querier: QuerierWrapper::new(&self.q) }
    }
    pub fn rdeps(&self) -> Deps<'_> {
        Deps { storage: &self.st, api: &self.api, querier: QuerierWrapper::new(&self.q) }
    }
}
/// Latest block time considered, in seconds: nanoseconds have to fit in 64 bits.
pub const MAX_SECS: u64 = 18_000_000_000;
pub fn env_at(contract: &str, secs: u64) -> Env {
    Env {
        block: BlockInfo { height: 12_345, time: Timestamp::from_seconds(secs), chain_id: "osmosis-1".into() },
        transaction: None,
        contract: ContractInfo { address: Addr::unchecked(contract) },
    }
}
/// A block time with a sub-second part
pub fn env_ns(contract: &str, secs: u64, ns: u64) -> Env {
    let mut e = env_at(contract, secs);
    e.block.time = e.block.time.plus_nanos(ns);
    e
}
pub fn msg_info(sender: &str, funds: Vec<Coin>) -> MessageInfo {
    MessageInfo { sender: Addr::unchecked(sender), funds }
}
pub fn coin_of(denom: &str, amount: Uint128) -> Coin {
    Coin { denom: denom.to_string(), amount }
}

/// "123uatom" (or the symbolic rendering of the amount followed by the denom)
pub fn parse_coin(s: &str) -> (Uint128, String) {
    let b = s.as_bytes();
    let mut i = 0;
    if !b.is_empty() && b[0] == b'#' {
        i = 1;
        while b[i] != b'#' {
            i += 1
        }
        i += 1;
    } else {
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1
        }
    }
    (amount(&s[..i]), s[i..].to_string())
}
pub fn amount(s: &str) -> Uint128 {
    s.parse::<Uint128>().expect("amount")
}

pub enum Kind {
    Send,
    Mint,
    Burn,
    CreateDenom,
    SwapIn,
    SwapOut,
    Execute,
    Other,
}
/// One emitted message. Swaps: `denom`/`amt` is the exact side, `limit` the slippage bound,
/// `route` the pools with their denoms.
pub struct Flow {
    pub kind: Kind,
    pub from: String,
    pub to: String,
    pub denom: String,
    pub amt: Z,
    pub limit: Z,
    pub route: Vec<(u64, String)>,
    pub msg: Vec<u8>,
}
pub struct Out {
    pub flows: Vec<Flow>,
    pub other: usize,
    pub replies: usize,
}
fn flow(kind: Kind, from: &str, to: &str, denom: &str, amt: Z) -> Flow {
    Flow { kind, from: from.into(), to: to.into(), denom: denom.into(), amt, limit: Z::k(0), route: vec![], msg: vec![] }
}
/// Everything a response does to balances, in order.
pub fn outputs(contract: &str, r: &Response) -> Out {
    let mut o = Out { flows: vec![], other: 0, replies: 0 };
    for s in &r.messages {
        if !matches!(s.reply_on, ReplyOn::Never) {
            o.replies += 1;
        }
        one(contract, &s.msg, &mut o);
    }
    o
}
pub fn one(me: &str, m: &CosmosMsg, o: &mut Out) {
    match m {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
            for c in amount {
                o.flows.push(flow(Kind::Send, me, to_address, &c.denom, Z::u128(c.amount)));
            }
            if amount.is_empty() {
                o.flows.push(flow(Kind::Send, me, to_address, "", Z::k(0)));
            }
        }
        CosmosMsg::Bank(BankMsg::Burn { amount }) => {
            for c in amount {
                o.flows.push(flow(Kind::Burn, me, "", &c.denom, Z::u128(c.amount)));
            }
        }
        CosmosMsg::Stargate { type_url, value } => match type_url.as_str() {
            MsgMint::TYPE_URL => {
                let m = MsgMint::decode(value.as_slice()).expect("MsgMint");
                let c = m.amount.expect("amount");
                o.flows.push(flow(Kind::Mint, &m.sender, &m.mint_to_address, &c.denom, Z::u128(amount(&c.amount))));
            }
            MsgBurn::TYPE_URL => {
                let m = MsgBurn::decode(value.as_slice()).expect("MsgBurn");
                let c = m.amount.expect("amount");
                o.flows.push(flow(Kind::Burn, &m.burn_from_address, &m.sender, &c.denom, Z::u128(amount(&c.amount))));
            }
            MsgCreateDenom::TYPE_URL => {
                let m = MsgCreateDenom::decode(value.as_slice()).expect("MsgCreateDenom");
                o.flows.push(flow(Kind::CreateDenom, &m.sender, "", &m.subdenom, Z::k(0)));
            }
            MsgSwapExactAmountIn::TYPE_URL => {
                let m = MsgSwapExactAmountIn::decode(value.as_slice()).expect("MsgSwapExactAmountIn");
                let c = m.token_in.expect("token_in");
                let mut f = flow(Kind::SwapIn, &m.sender, "", &c.denom, Z::u128(amount(&c.amount)));
                f.limit = Z::u128(amount(&m.token_out_min_amount));
                f.route = m.routes.into_iter().map(|r| (r.pool_id, r.token_out_denom)).collect();
                o.flows.push(f);
            }
            MsgSwapExactAmountOut::TYPE_URL => {
                let m = MsgSwapExactAmountOut::decode(value.as_slice()).expect("MsgSwapExactAmountOut");
                let c = m.token_out.expect("token_out");
                let mut f = flow(Kind::SwapOut, &m.sender, "", &c.denom, Z::u128(amount(&c.amount)));
                f.limit = Z::u128(amount(&m.token_in_max_amount));
                f.route = m.routes.into_iter().map(|r| (r.pool_id, r.token_in_denom)).collect();
                o.flows.push(f);
            }
            _ => o.other += 1,
        },
        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
            let mut f = flow(Kind::Execute, me, contract_addr, "", Z::k(0));
            f.msg = msg.to_vec();
            o.flows.push(f);
            for c in funds {
                o.flows.push(flow(Kind::Send, me, contract_addr, &c.denom, Z::u128(c.amount)));
            }
        }
        _ => o.other += 1,
    }
}
impl Out {
    /// total sent (or minted) to `to` in `denom`
    pub fn received(&self, to: &str, denom: &str) -> Z {
        let mut s = Z::k(0);
        for f in &self.flows {
            if matches!(f.kind, Kind::Send | Kind::Mint) && f.to == to && f.denom == denom {
                s = s + f.amt
            }
        }
        s
    }
    /// total leaving `from` in `denom`, by transfer or burning
    pub fn spent(&self, from: &str, denom: &str) -> Z {
        let mut s = Z::k(0);
        for f in &self.flows {
            if matches!(f.kind, Kind::Send | Kind::Burn) && f.from == from && f.denom == denom {
                s = s + f.amt
            }
        }
        s
    }
    pub fn minted(&self, denom: &str) -> Z {
        let mut s = Z::k(0);
        for f in &self.flows {
            if matches!(f.kind, Kind::Mint) && f.denom == denom {
                s = s + f.amt
            }
        }
        s
    }
    pub fn burned(&self, denom: &str) -> Z {
        let mut s = Z::k(0);
        for f in &self.flows {
            if matches!(f.kind, Kind::Burn) && f.denom == denom {
                s = s + f.amt
            }
        }
        s
    }
    /// total sent out of `me` to anybody, any denom not in `denoms` counted
    pub fn touches_only(&self, denoms: &[&str]) -> bool {
        self.flows.iter().all(|f| f.denom.is_empty() || denoms.contains(&f.denom.as_str()))
    }
    pub fn goes_only_to(&self, who: &[&str]) -> bool {
        self.flows.iter().all(|f| !matches!(f.kind, Kind::Send | Kind::Mint) || who.contains(&f.to.as_str()))
    }
    pub fn count(&self, k: fn(&Kind) -> bool) -> usize {
        self.flows.iter().filter(|f| k(&f.kind)).count()
    }
    pub fn silent(&self) -> bool {
        self.other == 0 && self.flows.iter().all(|f| matches!(f.kind, Kind::Send) && f.denom.is_empty())
    }
}
pub fn amt_in(coins: &[Coin], denom: &str) -> Z {
    let mut s = Z::k(0);
    for c in coins {
        if c.denom == denom {
            s = s + Z::u128(c.amount)
        }
    }
    s
}
