//! C29: the client of the beacon node API.
//! with: api
#![no_main]
use beacon_api_client::minimal::{Client, MinimalClientTypes};
use beacon_api_client::*;
use ethereum_consensus::{altair, builder, capella, deneb, phase0, types};
use harness::{key, root, BlsPublicKey, BlsSignature, Bytes32, Root};
use std::future::Future;
use std::str::FromStr;

fn now<T>(f: impl Future<Output = T>) -> T {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => panic!("the transport is always ready"),
    }
}
const BASES: [&str; 2] = ["http://node/", "https://host:5052/with/a/path/"];
fn base() -> &'static str {
    BASES[sym::pick("endpoint", 0, 1) as usize]
}
fn client(base: &str) -> Client {
    Client::new(url::Url::parse(base).unwrap())
}
fn nib(n: u8) -> u8 {
    sym::ite(n < 10, (b'0' + n) as u64, (b'a' - 10 + n) as u64) as u8
}
fn hex(b: &[u8]) -> String {
    let mut r = vec![b'0', b'x'];
    for x in b {
        r.push(nib(x >> 4));
        r.push(nib(x & 15));
    }
    unsafe { String::from_utf8_unchecked(r) }
}
fn hexr(r: &Root) -> String {
    hex(r.as_ref())
}
fn eq(a: &str, b: &str) -> bool {
    a.len() == b.len() && sym::eq_bytes(a.as_bytes(), b.as_bytes())
}
/// Exactly this was sent.
fn sent(base: &str, method: &str, path: &str, query: &[(&str, String)], body: &Option<String>, headers: &[(&str, &str)]) {
    let r = reqwest::sent();
    sym::check(r.len() == 1, "exactly one request is sent");
    if r.len() != 1 {
        return;
    }
    let r = &r[0];
    sym::check(r.method == method, "the request has the specified method");
    sym::check(eq(&r.url, &format!("{base}{path}")), "the request has the specified path, below the endpoint");
    sym::check(r.query.len() == query.len(), "the request has exactly the specified parameters");
    for (k, v) in query {
        let found = r.query.iter().filter(|(a, _)| a == k).collect::<Vec<_>>();
        sym::check(found.len() == 1, "each parameter is given once, under its name");
        sym::check(found.iter().all(|(_, b)| eq(b, v)), "parameters have the value that was asked for");
    }
    sym::check(r.body.is_some() == body.is_some(), "only a posted value is sent as a body");
    if let (Some(a), Some(b)) = (&r.body, body) {
        sym::check(eq(a, b), "the body is the JSON of what is posted");
    }
    sym::check(r.headers.len() == headers.len() && r.headers.iter().zip(headers).all(|((a, b), (c, d))| a.eq_ignore_ascii_case(c) && b == d), "the fork is announced in a header");
}
/// Prepares an answer that is an error.
fn refuse() -> (u64, u16) {
    let k = sym::pick("kind of error", 0, 2);
    // what the body says is passed on, whatever the status is
    let status = sym::range("status", 300, 599) as u16;
    let code = [400u16, 503][sym::pick("code", 0, 1) as usize];
    let body = match k {
        0 => format!(r#"{{"code":{code},"message":"no such thing"}}"#),
        1 => format!(r#"{{"code":{code},"message":"some failed","failures":[{{"index":1,"message":"bad"}},{{"index":3,"message":"worse"}}]}}"#),
        _ => "{\"unexpected\":1}".to_string(),
    };
    reqwest::answer(status, &body);
    (k, code)
}
fn refused<T>(r: Result<T, Error>, k: u64, c: u16) {
    sym::cover("refused");
    match (r, k) {
        (Err(Error::Api(ApiError::ErrorMessage { code, message })), 0) => {
            sym::check(code.as_u16() == c && message == "no such thing", "the node's error is passed on")
        }
        (Err(Error::Api(e @ ApiError::IndexedError { .. })), 1) => {
            let s = serde_json::to_string(&e).unwrap();
            sym::check(
                s == format!(r#"{{"code":{c},"message":"some failed","failures":[{{"index":1,"message":"bad"}},{{"index":3,"message":"worse"}}]}}"#),
                "the node's error is passed on with every failure",
            )
        }
        (Err(Error::Http(_)), 2) => {}
        (Err(_), _) => sym::check(false, "the node's error is passed on as what it is"),
        (Ok(_), _) => sym::check(false, "an error is no answer"),
    }
}
macro_rules! asks {
    ($c:ident, $call:expr, $m:literal $path:expr, $query:expr, $body:expr, $headers:expr; $answer:expr, |$v:ident| $ok:expr) => {{
        let b = base();
        let $c = client(b);
        if sym::pick_bool("the node answers") {
            reqwest::answer(200, &$answer);
            let r = now($call);
            sent(b, $m, &$path, &$query, &$body, &$headers);
            match r {
                Ok($v) => {
                    sym::cover("answered");
                    sym::check($ok, "the answer is returned as the node gave it")
                }
                Err(_) => sym::check(false, "a node's answer is understood"),
            }
        } else {
            let (k, code) = refuse();
            let r = now($call);
            sent(b, $m, &$path, &$query, &$body, &$headers);
            refused(r, k, code);
        }
    }};
    ($c:ident, $call:expr, $m:literal $path:expr, $query:expr; $answer:expr, |$v:ident| $ok:expr) => {
        asks!($c, $call, $m $path, $query, None::<String>, []; $answer, |$v| $ok)
    };
}
/// A value is posted; the node only says whether it took it.
macro_rules! posts {
    ($c:ident, $call:expr, $path:expr, $query:expr, $body:expr, $headers:expr) => {{
        let b = base();
        let $c = client(b);
        let body: Option<String> = Some($body);
        if sym::pick_bool("the node takes it") {
            reqwest::answer([200, 202][sym::pick("accepted", 0, 1) as usize], "");
            let r = now($call);
            sent(b, "POST", &$path, &$query, &body, &$headers);
            sym::cover("taken");
            sym::check(r.is_ok(), "what a node took is reported as taken");
        } else {
            let (k, code) = refuse();
            let r = now($call);
            sent(b, "POST", &$path, &$query, &body, &$headers);
            refused(r, k, code);
        }
    }};
    ($c:ident, $call:expr, $path:expr, $body:expr) => {
        posts!($c, $call, $path, [], $body, [])
    };
}
fn json<T: serde::Serialize + ?Sized>(v: &T) -> String {
    serde_json::to_string(v).unwrap()
}
fn data(v: &str) -> String {
    format!(r#"{{"execution_optimistic":false,"data":{v},"finalized":true}}"#)
}
fn versioned(f: &str, v: &str) -> String {
    format!(r#"{{"version":"{f}","execution_optimistic":false,"data":{v}}}"#)
}
const NUMBERS: [u64; 4] = [0, 9, 1234567, u64::MAX];
fn number(what: &str) -> u64 {
    NUMBERS[sym::pick(what, 0, 3) as usize]
}
fn some_number(what: &str) -> Option<u64> {
    match sym::pick(what, 0, 2) {
        0 => None,
        1 => Some(0),
        _ => Some(u64::MAX),
    }
}
fn any_root() -> Root {
    let mut r = [0xa5u8; 32];
    r[0] = sym::any_u8("root");
    r[31] = sym::any_u8("root");
    Root::try_from(r.as_ref()).unwrap()
}
fn state_id() -> (StateId, String) {
    match sym::pick("state", 0, 5) {
        0 => (StateId::Head, "head".into()),
        1 => (StateId::Genesis, "genesis".into()),
        2 => (StateId::Finalized, "finalized".into()),
        3 => (StateId::Justified, "justified".into()),
        4 => {
            let n = number("slot");
            (StateId::Slot(n), n.to_string())
        }
        _ => {
            let r = any_root();
            (StateId::Root(r), hexr(&r))
        }
    }
}
fn block_id() -> (BlockId, String) {
    match sym::pick("block", 0, 4) {
        0 => (BlockId::Head, "head".into()),
        1 => (BlockId::Genesis, "genesis".into()),
        2 => (BlockId::Finalized, "finalized".into()),
        3 => {
            let n = number("slot");
            (BlockId::Slot(n), n.to_string())
        }
        _ => {
            let r = any_root();
            (BlockId::Root(r), hexr(&r))
        }
    }
}
fn validator_ids() -> (Vec<PublicKeyOrIndex>, String) {
    let mut k = [0x8cu8; 48];
    k[3] = sym::any_u8("public key");
    let k = BlsPublicKey::try_from(k.as_ref()).unwrap();
    let text = hex(k.as_ref());
    match sym::pick("validators", 0, 3) {
        0 => (vec![], "".into()),
        1 => (vec![7.into()], "7".into()),
        2 => (vec![k.into()], text),
        _ => (vec![usize::MAX.into(), k.into(), 0.into()], format!("18446744073709551615,{text},0")),
    }
}
fn opt<T: ToString>(k: &'static str, v: Option<T>) -> Vec<(&'static str, String)> {
    v.map(|v| (k, v.to_string())).into_iter().collect()
}
fn list(k: &'static str, v: String) -> Vec<(&'static str, String)> {
    if v.is_empty() { vec![] } else { vec![(k, v)] }
}
fn same<T: serde::Serialize>(a: &T, b: &T) -> bool {
    json(a) == json(b)
}
fn signature(b: u8) -> BlsSignature {
    BlsSignature::try_from([b; 96].as_ref()).unwrap()
}
const STATUS: [(ValidatorStatus, &str); 13] = [
    (ValidatorStatus::PendingInitialized, "pending_initialized"),
    (ValidatorStatus::PendingQueued, "pending_queued"),
    (ValidatorStatus::ActiveOngoing, "active_ongoing"),
    (ValidatorStatus::ActiveExiting, "active_exiting"),
    (ValidatorStatus::ActiveSlashed, "active_slashed"),
    (ValidatorStatus::ExitedUnslashed, "exited_unslashed"),
    (ValidatorStatus::ExitedSlashed, "exited_slashed"),
    (ValidatorStatus::WithdrawalPossible, "withdrawal_possible"),
    (ValidatorStatus::WithdrawalDone, "withdrawal_done"),
    (ValidatorStatus::Active, "active"),
    (ValidatorStatus::Pending, "pending"),
    (ValidatorStatus::Exited, "exited"),
    (ValidatorStatus::Withdrawal, "withdrawal"),
];
const VALIDATOR: &str = r#"{"pubkey":"0x93247f2209abcacf57b75a51dafae777f9dd38bc7053d1af526f220a7489a6d3a2753e5f3e8b1cfe39b56f43611df74a","withdrawal_credentials":"0xcf8e0d4e9587369b2301d0790347320302cc0943d5a1884560367e8208d920f2","effective_balance":"3","slashed":true,"activation_eligibility_epoch":"4","activation_epoch":"5","exit_epoch":"6","withdrawable_epoch":"7"}"#;
fn is_validator(v: &harness::Validator) -> bool {
    hex(v.public_key.as_ref()) == "0x93247f2209abcacf57b75a51dafae777f9dd38bc7053d1af526f220a7489a6d3a2753e5f3e8b1cfe39b56f43611df74a"
        && hex(v.withdrawal_credentials.as_ref()) == "0xcf8e0d4e9587369b2301d0790347320302cc0943d5a1884560367e8208d920f2"
        && (v.effective_balance, v.slashed, v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch, v.withdrawable_epoch) == (3, true, 4, 5, 6, 7)
}
fn header() -> (String, phase0::SignedBeaconBlockHeader) {
    let h = phase0::SignedBeaconBlockHeader {
        message: phase0::BeaconBlockHeader { slot: 1, proposer_index: 2, parent_root: root(3), state_root: root(4), body_root: root(5) },
        signature: signature(6),
    };
    let (p, s, b) = (hexr(&root(3)), hexr(&root(4)), hexr(&root(5)));
    let t = format!(
        r#"{{"message":{{"slot":"1","proposer_index":"2","parent_root":"{p}","state_root":"{s}","body_root":"{b}"}},"signature":"{}"}}"#,
        hex(&[6; 96])
    );
    (t, h)
}
fn summary(t: &str, r: u8, canonical: bool) -> String {
    format!(r#"{{"root":"{}","canonical":{canonical},"header":{t}}}"#, hexr(&root(r)))
}
fn version() -> (ethereum_consensus::Fork, &'static str) {
    use ethereum_consensus::Fork::*;
    [(Phase0, "phase0"), (Altair, "altair"), (Bellatrix, "bellatrix"), (Capella, "capella"), (Deneb, "deneb"), (Electra, "electra")][sym::pick("fork", 0, 5) as usize]
}
fn broadcast(k: u64) -> Option<BroadcastValidation> {
    match k {
        0 => None,
        1 => Some(BroadcastValidation::Gossip),
        2 => Some(BroadcastValidation::Consensus),
        _ => Some(BroadcastValidation::ConsensusAndEquivocation),
    }
}
/// Numbers are posted as strings.
fn indices() -> (Vec<u64>, Vec<String>) {
    let v = [vec![], vec![5], vec![u64::MAX, 0, 17]][sym::pick("indices", 0, 2) as usize].clone();
    let t = v.iter().map(|x| format!("{x}")).collect();
    (v, t)
}
fn attestation() -> phase0::minimal::Attestation {
    let mut a = phase0::minimal::Attestation::default();
    a.data.slot = 3;
    a.data.beacon_block_root = root(9);
    a
}
fn signed_block() -> types::minimal::SignedBeaconBlock {
    let mut b = altair::minimal::SignedBeaconBlock::default();
    b.message.slot = 5;
    b.message.parent_root = root(1);
    types::minimal::SignedBeaconBlock::Altair(b)
}
fn block() -> types::minimal::BeaconBlock {
    let mut b = deneb::minimal::BeaconBlock::default();
    b.slot = 5;
    b.parent_root = root(1);
    types::minimal::BeaconBlock::Deneb(b)
}
fn blinded() -> types::minimal::BlindedBeaconBlock {
    let mut b = deneb::minimal::BlindedBeaconBlock::default();
    b.slot = 6;
    b.state_root = root(2);
    types::minimal::BlindedBeaconBlock::Deneb(b)
}
fn signed_blinded() -> types::minimal::SignedBlindedBeaconBlock {
    let mut b = capella::minimal::SignedBlindedBeaconBlock::default();
    b.message.slot = 6;
    b.message.state_root = root(2);
    types::minimal::SignedBlindedBeaconBlock::Capella(b)
}
fn bytes32(b: u8) -> Bytes32 {
    Bytes32::try_from([b; 32].as_ref()).unwrap()
}

sym::harness! {
    fn h_genesis() {
        asks!(c, c.get_genesis_details(), "GET" "eth/v1/beacon/genesis", [];
            data(&format!(r#"{{"genesis_time":"1590832934","genesis_validators_root":"{}","genesis_fork_version":"0x01020304"}}"#, hexr(&root(3)))),
            |v| v.genesis_time == 1590832934 && v.genesis_validators_root == root(3) && v.genesis_fork_version == [1, 2, 3, 4])
    }
    fn h_state_root() {
        let (id, t) = state_id();
        asks!(c, c.get_state_root(id.clone()), "GET" format!("eth/v1/beacon/states/{t}/root"), [];
            data(&format!(r#"{{"root":"{}"}}"#, hexr(&root(8)))), |v| v == root(8))
    }
    fn h_fork() {
        let (id, t) = state_id();
        asks!(c, c.get_fork(id.clone()), "GET" format!("eth/v1/beacon/states/{t}/fork"), [];
            data(r#"{"previous_version":"0x01000000","current_version":"0x02000003","epoch":"77"}"#),
            |v| v.previous_version == [1, 0, 0, 0] && v.current_version == [2, 0, 0, 3] && v.epoch == 77)
    }
    fn h_finality_checkpoints() {
        let (id, t) = state_id();
        let cp = |e: u64, r: u8| format!(r#"{{"epoch":"{e}","root":"{}"}}"#, hexr(&root(r)));
        asks!(c, c.get_finality_checkpoints(id.clone()), "GET" format!("eth/v1/beacon/states/{t}/finality_checkpoints"), [];
            data(&format!(r#"{{"previous_justified":{},"current_justified":{},"finalized":{}}}"#, cp(1, 1), cp(2, 2), cp(3, 3))),
            |v| v.previous_justified.epoch == 1 && v.previous_justified.root == root(1) && v.current_justified.epoch == 2
                && v.current_justified.root == root(2) && v.finalized.epoch == 3 && v.finalized.root == root(3))
    }
    fn h_validators() {
        let (ids, it) = validator_ids();
        let k = sym::pick("status", 0, 3) as usize;
        let s: Vec<ValidatorStatus> = [vec![], vec![STATUS[0].0], vec![STATUS[8].0, STATUS[2].0], vec![STATUS[12].0, STATUS[9].0, STATUS[7].0]][k].clone();
        let st = ["", "pending_initialized", "withdrawal_done,active_ongoing", "withdrawal,active,withdrawal_possible"][k];
        let mut q = list("id", it);
        q.extend(list("status", st.to_string()));
        asks!(c, c.get_validators(StateId::Head, &ids, &s), "GET" "eth/v1/beacon/states/head/validators", q;
            data(&format!(r#"[{{"index":"1","balance":"2","status":"active_exiting","validator":{VALIDATOR}}},{{"index":"8","balance":"9","status":"exited_slashed","validator":{VALIDATOR}}}]"#)),
            |v| v.len() == 2 && v[0].index == 1 && v[0].balance == 2 && v[0].status == ValidatorStatus::ActiveExiting && is_validator(&v[0].validator)
                && v[1].index == 8 && v[1].balance == 9 && v[1].status == ValidatorStatus::ExitedSlashed && is_validator(&v[1].validator))
    }
    fn h_validators_states() {
        let (id, t) = state_id();
        asks!(c, c.get_validators(id.clone(), &[], &[]), "GET" format!("eth/v1/beacon/states/{t}/validators"), []; data("[]"), |v| v.is_empty())
    }
    fn h_validator() {
        let (id, t) = state_id();
        let by_key = sym::pick_bool("by key");
        let v = || if by_key { PublicKeyOrIndex::PublicKey(key(4)) } else { PublicKeyOrIndex::Index(12) };
        let vt = if by_key { hex(key(4).as_ref()) } else { "12".to_string() };
        let k = sym::pick("status", 0, 8) as usize;
        asks!(c, c.get_validator(id.clone(), v()), "GET" format!("eth/v1/beacon/states/{t}/validators/{vt}"), [];
            data(&format!(r#"{{"index":"1","balance":"2","status":"{}","validator":{VALIDATOR}}}"#, STATUS[k].1)),
            |v| v.index == 1 && v.balance == 2 && v.status == STATUS[k].0 && is_validator(&v.validator))
    }
    fn h_status_names() {
        let k = sym::pick("status", 0, 12) as usize;
        sym::check(STATUS[k].0.to_string() == STATUS[k].1, "a status is shown under its name");
        sym::check(json(&STATUS[k].0) == format!("\"{}\"", STATUS[k].1), "a status is written under its name");
        sym::check(serde_json::from_str::<ValidatorStatus>(&format!("\"{}\"", STATUS[k].1)).ok() == Some(STATUS[k].0), "a status is read by its name");
        sym::cover("end");
    }
    fn h_balances() {
        let (id, t) = state_id();
        let (ids, it) = validator_ids();
        asks!(c, c.get_balances(id.clone(), &ids), "GET" format!("eth/v1/beacon/states/{t}/validator_balances"), list("id", it);
            data(r#"[{"index":"5","balance":"18446744073709551615"},{"index":"6","balance":"0"}]"#),
            |v| v.len() == 2 && v[0].index == 5 && v[0].balance == u64::MAX && v[1].index == 6 && v[1].balance == 0)
    }
    fn h_committees() {
        let (id, t) = (StateId::Slot(77), "77");
        let all = sym::pick_bool("all");
        let n = |w: &str| if all { None } else { some_number(w) };
        let (e, i, s) = (n("epoch"), n("index"), n("slot"));
        let mut q = opt("epoch", e);
        q.extend(opt("index", i));
        q.extend(opt("slot", s));
        let filter = || CommitteeFilter { epoch: e, index: i.map(|x| x as _), slot: s };
        asks!(c, async { if all { c.get_all_committees(id.clone()).await } else { c.get_committees(id.clone(), filter()).await } },
            "GET" format!("eth/v1/beacon/states/{t}/committees"), q;
            data(r#"[{"index":"1","slot":"2","validators":["3","4"]},{"index":"5","slot":"6","validators":[]}]"#),
            |v| v.len() == 2 && v[0].index == 1 && v[0].slot == 2 && v[0].validators.0 == [3, 4] && v[1].index == 5 && v[1].slot == 6 && v[1].validators.0.is_empty())
    }
    fn h_sync_committees() {
        let (id, t) = state_id();
        let e = some_number("epoch");
        asks!(c, c.get_sync_committees(id.clone(), e), "GET" format!("eth/v1/beacon/states/{t}/sync_committees"), opt("epoch", e);
            data(r#"{"validators":["1","2","3"],"validator_aggregates":[["1"],["2","3"]]}"#),
            |v| v.validators == [1, 2, 3] && v.validator_aggregates.len() == 2 && v.validator_aggregates[0].0 == [1] && v.validator_aggregates[1].0 == [2, 3])
    }
    fn h_randao() {
        let (id, t) = state_id();
        let e = some_number("epoch");
        asks!(c, c.get_randao(id.clone(), e), "GET" format!("eth/v1/beacon/states/{t}/randao"), opt("epoch", e);
            data(&format!(r#"{{"randao":"{}"}}"#, hex(&[7; 32]))), |v| v == bytes32(7))
    }
    fn h_header() {
        let (id, t) = block_id();
        let (ht, h) = header();
        let canonical = sym::pick_bool("canonical");
        asks!(c, c.get_beacon_header(id.clone()), "GET" format!("eth/v1/beacon/headers/{t}"), [];
            data(&summary(&ht, 8, canonical)), |v| v.root == root(8) && v.canonical == canonical && same(&v.header, &h))
    }
    fn h_headers() {
        // the API answers with a list of headers; the client reads a single one (known finding)
        let k = sym::pick("by", 0, 2);
        let s = number("slot");
        let r = any_root();
        let (ht, h) = header();
        let b = base();
        let c = client(b);
        let canonical = sym::pick_bool("canonical");
        let one = summary(&ht, 8, canonical);
        let ask = || match k {
            0 => now(c.get_beacon_header_at_head()),
            1 => now(c.get_beacon_header_for_slot(s)),
            _ => now(c.get_beacon_header_for_parent_root(r)),
        };
        let q = || match k {
            0 => vec![],
            1 => vec![("slot", s.to_string())],
            _ => vec![("parent_root", hexr(&r))],
        };
        match sym::pick("the node answers", 0, 2) {
            0 => {
                let (k, code) = refuse();
                let r = ask();
                sent(b, "GET", "eth/v1/beacon/headers", &q(), &None, &[]);
                refused(r, k, code);
            }
            1 => {
                // not an answer of the API, but what the client is known to read
                reqwest::answer(200, &data(&one));
                let r = ask();
                sent(b, "GET", "eth/v1/beacon/headers", &q(), &None, &[]);
                match r {
                    Ok(v) => sym::check(v.root == root(8) && v.canonical == canonical && same(&v.header, &h), "the answer is returned as the node gave it"),
                    Err(_) => sym::check(false, "KNOWN: a single header is read"),
                }
            }
            _ => {
                reqwest::answer(200, &data(&format!("[{one}]")));
                let r = ask();
                sent(b, "GET", "eth/v1/beacon/headers", &q(), &None, &[]);
                match r {
                    Ok(v) => sym::check(v.root == root(8) && v.canonical == canonical && same(&v.header, &h), "the answer is returned as the node gave it"),
                    Err(e) => {
                        sym::check(matches!(e, Error::Http(_)), "a list of headers is not understood");
                        sym::cover("KF");
                        sym::check(false, "KF a node's list of headers is understood");
                    }
                }
            }
        }
    }
    fn h_blinded_v1() {
        let b = signed_blinded();
        posts!(c, c.post_signed_blinded_beacon_block(&b), "eth/v1/beacon/blinded_blocks", json(&b))
    }
    fn h_blinded_v2() {
        let b = signed_blinded();
        let (f, ft) = version();
        let k = sym::pick("broadcast validation", 0, 3);
        let v = || broadcast(k);
        let q = list("broadcast_validation", ["", "gossip", "consensus", "consensus_and_equivocation"][k as usize].to_string());
        posts!(c, c.post_signed_blinded_beacon_block_v2(&b, f, v()), "eth/v2/beacon/blinded_blocks", q, json(&b), [("Eth-Consensus-Version", ft)])
    }
    fn h_block_v1() {
        let b = signed_block();
        posts!(c, c.post_signed_beacon_block(&b), "eth/v1/beacon/blocks", json(&b))
    }
    fn h_block_v2() {
        let b = signed_block();
        let (f, ft) = version();
        let k = sym::pick("broadcast validation", 0, 3);
        let v = || broadcast(k);
        let q = list("broadcast_validation", ["", "gossip", "consensus", "consensus_and_equivocation"][k as usize].to_string());
        let p = [ethereum_consensus::crypto::KzgProof::try_from([5u8; 48].as_ref()).unwrap()];
        let request = || SubmitSignedBeaconBlock { signed_block: &b, kzg_proofs: Some(&p[..]), blobs: Some(&[][..]) };
        let body = format!(r#"{{"signed_block":{},"kzg_proofs":["{}"],"blobs":[]}}"#, json(&b), hex(&[5; 48]));
        posts!(c, c.post_signed_beacon_block_v2(request(), f, v()), "eth/v2/beacon/blocks", q, body.clone(), [("Eth-Consensus-Version", ft)])
    }

    fn h_get_block() {
        let (id, t) = block_id();
        let b = signed_block();
        asks!(c, c.get_beacon_block(id.clone()), "GET" format!("eth/v2/beacon/blocks/{t}"), [];
            versioned("altair", &json(&b)), |v| same(&v, &b))
    }
    fn h_block_root() {
        let (id, t) = block_id();
        asks!(c, c.get_beacon_block_root(id.clone()), "GET" format!("eth/v1/beacon/blocks/{t}/root"), [];
            data(&format!(r#"{{"root":"{}"}}"#, hexr(&root(8)))), |v| v == root(8))
    }
    fn h_block_attestations() {
        let (id, t) = block_id();
        let a = vec![attestation(), Default::default()];
        asks!(c, c.get_attestations_from_beacon_block(id.clone()), "GET" format!("eth/v1/beacon/blocks/{t}/attestations"), [];
            data(&json(&a)), |v| same(&v, &a))
    }
    fn h_blob_sidecars() {
        let (id, t) = (BlockId::Finalized, "finalized");
        let (i, it) = indices();
        let i: Vec<_> = i.iter().map(|x| *x as _).collect();
        asks!(c, c.get_blob_sidecars(id.clone(), &i), "GET" format!("eth/v1/beacon/blob_sidecars/{t}"), list("indices", it.join(","));
            data("[]"), |v| v.is_empty())
    }
    fn h_deposit_snapshot() {
        let (a, b, d, e) = (hexr(&root(1)), hexr(&root(2)), hexr(&root(3)), hexr(&root(4)));
        asks!(c, c.get_deposit_snapshot(), "GET" "eth/v1/beacon/deposit_snapshot", [];
            data(&format!(r#"{{"finalized":["{a}","{b}"],"deposit_root":"{d}","deposit_count":"12","execution_block_hash":"{e}","execution_block_height":"13"}}"#)),
            |v| v.finalized.len() == 2 && hex(v.finalized[0].as_ref()) == a && hex(v.finalized[1].as_ref()) == b && hex(v.deposit_root.as_ref()) == d
                && v.deposit_count == 12 && hex(v.execution_block_hash.as_ref()) == e && v.execution_block_height == 13)
    }
    fn h_get_blinded_block() {
        let (id, t) = block_id();
        let b = signed_blinded();
        asks!(c, c.get_blinded_block(id.clone()), "GET" format!("eth/v1/beacon/blinded_blocks/{t}"), [];
            versioned("capella", &json(&b)), |v| same(&v, &b))
    }
    fn h_light_client_bootstrap() {
        let r = any_root();
        let mut b = altair::minimal::LightClientBootstrap::default();
        b.header.beacon.slot = 4;
        asks!(c, c.get_light_client_bootstrap(r), "GET" format!("eth/v1/beacon/light_client/bootstrap/{}", hexr(&r)), [];
            versioned("altair", &json(&b)), |v| same(&v, &b))
    }
    fn h_light_client_updates() {
        let (s, n) = (number("start"), number("count"));
        let mut b = altair::minimal::LightClientUpdate::default();
        b.signature_slot = 4;
        asks!(c, c.get_light_client_updates(s, n), "GET" "eth/v1/beacon/light_client/updates", [("start_period", s.to_string()), ("count", n.to_string())];
            format!(r#"[{{"version":"altair","data":{}}},{{"version":"altair","data":{}}}]"#, json(&b), json(&altair::minimal::LightClientUpdate::default())),
            |v| v.len() == 2 && same(&v[0], &b) && same(&v[1], &Default::default()))
    }
    fn h_light_client_finality() {
        let mut b = altair::minimal::LightClientFinalityUpdate::default();
        b.signature_slot = 4;
        asks!(c, c.get_light_client_finality_update(), "GET" "eth/v1/beacon/light_client/finality_update", [];
            versioned("altair", &json(&b)), |v| same(&v, &b))
    }
    fn h_light_client_optimistic() {
        let mut b = altair::minimal::LightClientOptimisticUpdate::default();
        b.signature_slot = 4;
        asks!(c, c.get_light_client_optimistic_update(), "GET" "eth/v1/beacon/light_client/optimistic_update", [];
            versioned("altair", &json(&b)), |v| same(&v, &b))
    }
    fn h_pool_attestations() {
        let (s, i) = (some_number("slot"), some_number("committee"));
        let a = vec![attestation()];
        let mut q = opt("slot", s);
        q.extend(opt("committee_index", i));
        asks!(c, c.get_attestations_from_pool(s, i.map(|x| x as _)), "GET" "eth/v1/beacon/pool/attestations", q; data(&json(&a)), |v| same(&v, &a))
    }
    fn h_pool_slashings() {
        let a = vec![phase0::minimal::AttesterSlashing::default()];
        let p = vec![phase0::ProposerSlashing::default(), phase0::ProposerSlashing { signed_header_1: header().1, ..Default::default() }];
        if sym::pick_bool("attesters") {
            asks!(c, c.get_attester_slashings_from_pool(), "GET" "eth/v1/beacon/pool/attester_slashings", []; data(&json(&a)), |v| same(&v, &a))
        } else {
            asks!(c, c.get_proposer_slashings_from_pool(), "GET" "eth/v1/beacon/pool/proposer_slashings", []; data(&json(&p)), |v| same(&v, &p))
        }
    }
    fn h_pool_exits_and_changes() {
        let e = vec![phase0::SignedVoluntaryExit { message: phase0::VoluntaryExit { epoch: 4, validator_index: 5 }, signature: signature(1) }];
        let b = vec![capella::SignedBlsToExecutionChange::default()];
        if sym::pick_bool("exits") {
            asks!(c, c.get_voluntary_exits_from_pool(), "GET" "eth/v1/beacon/pool/voluntary_exits", []; data(&json(&e)), |v| same(&v, &e))
        } else {
            asks!(c, c.get_bls_to_execution_changes(), "GET" "eth/v1/beacon/pool/bls_to_execution_changes", []; data(&json(&b)), |v| same(&v, &b))
        }
    }
    fn h_post_pool() {
        match sym::pick("what", 0, 5) {
            0 => {
                let a = [attestation(), Default::default()];
                posts!(c, c.post_attestations(&a), "eth/v1/beacon/pool/attestations", json(&a[..]))
            }
            1 => {
                let a = phase0::minimal::AttesterSlashing::default();
                posts!(c, c.post_attester_slashing(&a), "eth/v1/beacon/pool/attester_slashings", json(&a))
            }
            2 => {
                let a = phase0::ProposerSlashing { signed_header_1: header().1, ..Default::default() };
                posts!(c, c.post_proposer_slashing(&a), "eth/v1/beacon/pool/proposer_slashings", json(&a))
            }
            3 => {
                let a = [altair::SyncCommitteeMessage { slot: 3, beacon_block_root: root(1), validator_index: 4, signature: signature(1) }];
                posts!(c, c.post_sync_committee_messages(&a), "eth/v1/beacon/pool/sync_committees", json(&a[..]))
            }
            4 => {
                let a = phase0::SignedVoluntaryExit { message: phase0::VoluntaryExit { epoch: 4, validator_index: 5 }, signature: signature(1) };
                posts!(c, c.post_signed_voluntary_exit(&a), "eth/v1/beacon/pool/voluntary_exits", json(&a))
            }
            _ => {
                let a = [capella::SignedBlsToExecutionChange::default()];
                posts!(c, c.post_bls_to_execution_changes(&a), "eth/v1/beacon/pool/bls_to_execution_changes", json(&a[..]))
            }
        }
    }
    fn h_expected_withdrawals() {
        let (id, t) = state_id();
        let s = some_number("slot");
        asks!(c, c.get_expected_withdrawals(id.clone(), s), "GET" format!("eth/v1/builder/states/{t}/expected_withdrawals"), opt("proposal_slot", s);
            data(&format!(r#"[{{"index":"1","validator_index":"2","address":"{}","amount":"3"}}]"#, hex(&[9; 20]))),
            |v| v.len() == 1 && v[0].index == 1 && v[0].validator_index == 2 && v[0].address.as_ref() == [9; 20] && v[0].amount == 3)
    }
    fn h_config() {
        match sym::pick("what", 0, 2) {
            0 => asks!(c, c.get_fork_schedule(), "GET" "eth/v1/config/fork_schedule", [];
                data(r#"[{"previous_version":"0x01000000","current_version":"0x01000000","epoch":"0"},{"previous_version":"0x01000000","current_version":"0x02000003","epoch":"77"}]"#),
                |v| v.len() == 2 && v[0].epoch == 0 && v[1].previous_version == [1, 0, 0, 0] && v[1].current_version == [2, 0, 0, 3] && v[1].epoch == 77),
            1 => asks!(c, c.get_spec(), "GET" "eth/v1/config/spec", [];
                data(r#"{"SECONDS_PER_SLOT":"12","DEPOSIT_CHAIN_ID":"1"}"#),
                |v| v.len() == 2 && v["SECONDS_PER_SLOT"] == "12" && v["DEPOSIT_CHAIN_ID"] == "1"),
            _ => asks!(c, c.get_deposit_contract_address(), "GET" "eth/v1/config/deposit_contract", [];
                data(&format!(r#"{{"chain_id":"17000","address":"{}"}}"#, hex(&[3; 20]))), |v| v.chain_id == 17000 && v.address.as_ref() == [3; 20]),
        }
    }
    fn h_heads() {
        let t = |r: u8, s: u8| format!(r#"{{"slot":"{s}","root":"{}","execution_optimistic":true}}"#, hexr(&root(r)));
        asks!(c, c.get_heads(), "GET" "eth/v2/debug/beacon/heads", []; format!(r#"{{"data":[{},{}]}}"#, t(1, 5), t(2, 6)),
            |v| json(&v) == format!("[{},{}]", t(1, 5), t(2, 6)))
    }
    fn h_identity() {
        let id = "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N";
        asks!(c, c.get_node_identity(), "GET" "eth/v1/node/identity", [];
            data(&format!(r#"{{"peer_id":"{id}","enr":"enr:-IS4QHCYrYZbAKWCBRlAy5zzaDZXJ","p2p_addresses":["/ip4/7.7.7.7/tcp/4242"],"discovery_addresses":["/ip4/8.8.8.8/udp/9000"],"metadata":{{"seq_number":"1","attnets":"0x0100000000000080","syncnets":"0x05"}}}}"#)),
            |v| v.peer_id.to_string() == id && v.enr.to_string() == "enr:-IS4QHCYrYZbAKWCBRlAy5zzaDZXJ" && json(&v.p2p_addresses) == r#"["/ip4/7.7.7.7/tcp/4242"]"#
                && json(&v.discovery_addresses) == r#"["/ip4/8.8.8.8/udp/9000"]"# && v.metadata.seq_number == 1 && json(&v.metadata.attnets) == r#""0x0100000000000080""# && json(&v.metadata.syncnets) == r#""0x05""#)
    }
    fn h_peers() {
        let i = sym::pick("states", 0, 5) as usize;
        let o = sym::pick("directions", 0, 3) as usize;
        use ConnectionOrientation::*;
        use PeerState::*;
        let states = || [vec![], vec![Connected], vec![Disconnected], vec![Connecting], vec![Disconnecting], vec![Connecting, Disconnected]].into_iter().nth(i).unwrap();
        let directions = || [vec![], vec![Inbound], vec![Outbound], vec![Outbound, Inbound]].into_iter().nth(o).unwrap();
        let mut q = list("state", ["", "connected", "disconnected", "connecting", "disconnecting", "connecting,disconnected"][i].to_string());
        q.extend(list("direction", ["", "inbound", "outbound", "outbound,inbound"][o].to_string()));
        let id = "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N";
        let peer = format!(r#"{{"peer_id":"{id}","enr":"enr:-IS4","last_seen_p2p_address":"/ip4/7.7.7.7/tcp/4242","state":"disconnecting","direction":"outbound"}}"#);
        asks!(c, c.get_node_peers(&states(), &directions()), "GET" "eth/v1/node/peers", q;
            format!(r#"{{"data":[{peer}],"meta":{{"count":1}}}}"#), |v| v.len() == 1 && json(&v[0]) == peer)
    }
    fn h_peer() {
        let id = "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N";
        let state = ["disconnected", "connecting", "connected", "disconnecting"][sym::pick("state", 0, 3) as usize];
        let direction = ["inbound", "outbound"][sym::pick("direction", 0, 1) as usize];
        let peer = format!(r#"{{"peer_id":"{id}","enr":"enr:-IS4","last_seen_p2p_address":"/ip4/7.7.7.7/tcp/4242","state":"{state}","direction":"{direction}"}}"#);
        asks!(c, c.get_peer(id.parse().unwrap()), "GET" format!("eth/v1/node/peers/{id}"), []; data(&peer),
            |v| json(&v) == peer && v.state.to_string() == state && v.direction.to_string() == direction)
    }
    fn h_node() {
        match sym::pick("what", 0, 2) {
            0 => asks!(c, c.get_peer_summary(), "GET" "eth/v1/node/peer_count", [];
                data(r#"{"disconnected":"1","connecting":"2","connected":"3","disconnecting":"4"}"#),
                |v| (v.disconnected, v.connecting, v.connected, v.disconnecting) == (1, 2, 3, 4)),
            1 => asks!(c, c.get_node_version(), "GET" "eth/v1/node/version", []; data(r#"{"version":"Some/v1.2 (linux)"}"#), |v| v == "Some/v1.2 (linux)"),
            _ => asks!(c, c.get_sync_status(), "GET" "eth/v1/node/syncing", [];
                data(r#"{"head_slot":"100","sync_distance":"7","is_syncing":true,"is_optimistic":true,"el_offline":false}"#),
                |v| v.head_slot == 100 && v.sync_distance == 7 && v.is_syncing),
        }
    }
    fn h_health() {
        let b = base();
        let c = client(b);
        let s = sym::range("status", 100, 599) as u16;
        reqwest::answer(s, "");
        let r = now(c.get_health());
        sent(b, "GET", "eth/v1/node/health", &[], &None, &[]);
        match r {
            Ok(HealthStatus::Ready) => { sym::cover("ready"); sym::check(s == 200, "only 200 says that the node is ready") }
            Ok(HealthStatus::Syncing) => { sym::cover("syncing"); sym::check(s == 206, "only 206 says that the node is syncing") }
            Ok(HealthStatus::NotInitialized) => { sym::cover("not initialized"); sym::check(s == 503, "only 503 says that the node is not initialized") }
            Ok(HealthStatus::Unknown) => { sym::cover("unknown"); sym::check((s != 200) & (s != 206) & (s != 503), "the specified statuses are known") }
            Err(_) => sym::check(false, "any status is an answer"),
        }
    }
    fn h_duties() {
        let e = number("epoch");
        let (i, it) = indices();
        let i: Vec<_> = i.iter().map(|x| *x as _).collect();
        let body = Some(json(&it));
        let dependent = sym::pick_bool("dependent root");
        let with = |d: &str| if dependent { format!(r#"{{"dependent_root":"{}","execution_optimistic":false,"data":{d}}}"#, hexr(&root(6))) } else { format!(r#"{{"execution_optimistic":false,"data":{d}}}"#) };
        let k = hex(key(4).as_ref());
        match sym::pick("what", 0, 2) {
            0 => {
                let t = with(&format!(r#"[{{"pubkey":"{k}","validator_index":"1","committee_index":"2","committee_length":"3","committees_at_slot":"4","validator_committee_index":"5","slot":"6"}}]"#));
                if dependent {
                    asks!(c, c.get_attester_duties(e, &i), "POST" format!("eth/v1/validator/duties/attester/{e}"), [], body, []; t,
                        |v| v.0 == root(6) && v.1.len() == 1 && v.1[0].public_key == key(4)
                            && (v.1[0].validator_index, v.1[0].committee_index, v.1[0].committee_length, v.1[0].committees_at_slot, v.1[0].validator_committee_index, v.1[0].slot) == (1, 2, 3, 4, 5, 6))
                } else {
                    reqwest::answer(200, &t);
                    sym::check(matches!(now(client(BASES[0]).get_attester_duties(e, &i)), Err(Error::MissingExpectedData(_))), "duties need the root they depend on");
                }
            }
            1 => {
                let t = with(&format!(r#"[{{"pubkey":"{k}","validator_index":"1","slot":"6"}}]"#));
                if dependent {
                    asks!(c, c.get_proposer_duties(e), "GET" format!("eth/v1/validator/duties/proposer/{e}"), []; t,
                        |v| v.0 == root(6) && v.1.len() == 1 && v.1[0].public_key == key(4) && v.1[0].validator_index == 1 && v.1[0].slot == 6)
                } else {
                    reqwest::answer(200, &t);
                    sym::check(matches!(now(client(BASES[0]).get_proposer_duties(e)), Err(Error::MissingExpectedData(_))), "duties need the root they depend on");
                }
            }
            _ => {
                let t = data(&format!(r#"[{{"pubkey":"{k}","validator_index":"1","validator_sync_committee_indices":["0","511"]}}]"#));
                asks!(c, c.get_sync_committee_duties(e, &i), "POST" format!("eth/v1/validator/duties/sync/{e}"), [], body, []; t,
                    |v| v.len() == 1 && v[0].public_key == key(4) && v[0].validator_index == 1 && v[0].validator_sync_committee_indices == [0, 511])
            }
        }
    }
    fn h_proposals() {
        let s = number("slot");
        let g = sym::pick_bool("graffiti").then(|| bytes32(sym::any_u8("graffiti")));
        let mut q = vec![("randao_reveal", hex(&[7; 96]))];
        q.extend(g.as_ref().map(|g| ("graffiti", hex(g.as_ref()))));
        if sym::pick_bool("blinded") {
            let b = blinded();
            asks!(c, c.get_blinded_block_proposal(s, signature(7), g.clone()), "GET" format!("eth/v1/validator/blinded_blocks/{s}"), q; versioned("deneb", &json(&b)), |v| same(&v, &b))
        } else {
            let b = block();
            asks!(c, c.get_block_proposal(s, signature(7), g.clone()), "GET" format!("eth/v2/validator/blocks/{s}"), q; versioned("deneb", &json(&b)), |v| same(&v, &b))
        }
    }
    fn h_attesting() {
        let (s, i) = (number("slot"), number("index"));
        let r = any_root();
        let a = attestation();
        let mut k = altair::minimal::SyncCommitteeContribution::default();
        k.slot = 3;
        match sym::pick("what", 0, 2) {
            0 => asks!(c, c.get_attestation_data(s, i as _), "GET" "eth/v1/validator/attestation_data", [("slot", s.to_string()), ("committee_index", i.to_string())];
                data(&json(&a.data)), |v| same(&v, &a.data)),
            1 => asks!(c, c.get_attestation_aggregate(r, s), "GET" "eth/v1/validator/aggregate_attestation", [("slot", s.to_string()), ("attestation_data_root", hexr(&r))];
                data(&json(&a)), |v| same(&v, &a)),
            _ => asks!(c, c.get_sync_committee_contribution(s, i as usize, r), "GET" "eth/v1/validator/sync_committee_contribution",
                [("slot", s.to_string()), ("subcommittee_index", i.to_string()), ("beacon_block_root", hexr(&r))]; data(&json(&k)), |v| same(&v, &k)),
        }
    }
    fn h_post_validator() {
        match sym::pick("what", 0, 5) {
            0 => {
                let a = [phase0::minimal::SignedAggregateAndProof::default()];
                posts!(c, c.post_aggregates_with_proofs(&a), "eth/v1/validator/aggregate_and_proofs", json(&a[..]))
            }
            1 => {
                let a = [CommitteeDescriptor { validator_index: 1, committee_index: 2, committees_at_slot: 3, slot: 4, is_aggregator: true }];
                posts!(c, c.subscribe_subnets_for_attestation_committees(&a), "eth/v1/validator/beacon_committee_subscriptions",
                    r#"[{"validator_index":"1","committee_index":"2","committees_at_slot":"3","slot":"4","is_aggregator":true}]"#.to_string())
            }
            2 => {
                let a = [SyncCommitteeDescriptor { validator_index: 1, sync_committee_indices: vec![2, 3], until_epoch: 4 }];
                posts!(c, c.subscribe_subnets_for_sync_committees(&a), "eth/v1/validator/sync_committee_subscriptions",
                    r#"[{"validator_index":"1","sync_committee_indices":["2","3"],"until_epoch":"4"}]"#.to_string())
            }
            3 => {
                let a = [altair::minimal::SignedContributionAndProof::default()];
                posts!(c, c.post_sync_committee_contributions_with_proofs(&a), "eth/v1/validator/contribution_and_proofs", json(&a[..]))
            }
            4 => {
                let a = [BeaconProposerRegistration { validator_index: 1, fee_recipient: [9u8; 20].as_ref().try_into().unwrap() }];
                posts!(c, c.prepare_proposers(&a), "eth/v1/validator/prepare_beacon_proposer", format!(r#"[{{"validator_index":"1","fee_recipient":"{}"}}]"#, hex(&[9; 20])))
            }
            _ => {
                let a = [builder::SignedValidatorRegistration::default()];
                posts!(c, c.register_validators_with_builders(&a), "eth/v1/validator/register_validator", json(&a[..]))
            }
        }
    }
    fn h_liveness() {
        let e = number("epoch");
        let (i, it) = indices();
        let i: Vec<_> = i.iter().map(|x| *x as _).collect();
        asks!(c, c.post_liveness(e, &i), "POST" format!("eth/v1/validator/liveness/{e}"), [], Some(json(&it)), [];
            data(r#"[{"index":"1","is_live":true},{"index":"2","is_live":false}]"#), |v| json(&v) == r#"[{"index":"1","is_live":true},{"index":"2","is_live":false}]"#)
    }
    fn h_events() {
        let b = base();
        let c = client(b);
        sym::check(now(c.get_events::<PayloadAttributesTopic>()).is_ok(), "events can be subscribed to");
        sent(b, "SSE", "eth/v1/events?topics=payload_attributes", &[], &None, &[]);
        let full = sym::pick("fields", 0, 2);
        let w = format!(r#","withdrawals":[{{"index":"5","validator_index":"10","address":"{}","amount":"15640"}}]"#, hex(&[9; 20]));
        let p = format!(r#","parent_beacon_block_root":"{}""#, hexr(&root(4)));
        let t = format!(
            r#"{{"version":"capella","data":{{"proposer_index":"123","proposal_slot":"10","parent_block_number":"9","parent_block_root":"{}","parent_block_hash":"{}","payload_attributes":{{"timestamp":"123456","prev_randao":"{}","suggested_fee_recipient":"{}"{}{}}}}}}}"#,
            hexr(&root(1)), hexr(&root(2)), hexr(&root(3)), hex(&[8; 20]), if full > 0 { &w } else { "" }, if full > 1 { &p } else { "" });
        let v: Result<VersionedValue<PayloadAttributesEvent>, _> = serde_json::from_str(&t);
        sym::check(v.is_ok(), "an event is understood");
        if let Ok(v) = v {
            let a = &v.data.payload_attributes;
            sym::check(v.data.proposer_index == 123 && v.data.proposal_slot == 10 && v.data.parent_block_number == 9 && hex(v.data.parent_block_root.as_ref()) == hexr(&root(1))
                && hex(v.data.parent_block_hash.as_ref()) == hexr(&root(2)) && a.timestamp == 123456 && hex(a.prev_randao.as_ref()) == hexr(&root(3)) && a.suggested_fee_recipient.as_ref() == [8; 20], "an event has the node's values");
            sym::check(a.withdrawals.is_some() == (full > 0) && a.parent_beacon_block_root.is_some() == (full > 1), "attributes of later forks are optional");
            sym::check(json(&v) == t, "an event is written as it was read");
        }
        sym::cover("end");
    }
    fn h_state_id_text() {
        let (id, t) = state_id();
        sym::check(eq(&id.to_string(), &t), "a state identifier is shown as the API has it");
        match StateId::from_str(&t) {
            Ok(back) => sym::check(eq(&back.to_string(), &t), "a state identifier is parsed back"),
            Err(_) => sym::check(false, "a state identifier is parsed"),
        }
        sym::cover("end");
    }
    fn h_state_id_parse() {
        let t = ["", "Head", "headx", "-1", "18446744073709551616", "0x", "0x00", "justifie", "0xgg", "1.0", "latest"];
        let k = sym::pick("text", 0, t.len() as u64 + 1) as usize;
        let bad = if k < t.len() {
            t[k].to_string()
        } else {
            // a root with a byte too few or too many
            hex(&vec![0xab; 31 + 2 * (k - t.len())])
        };
        sym::check(StateId::from_str(&bad).is_err(), "what is no identifier is refused");
        sym::cover("end");
    }
    fn h_client_types() {
        use std::any::TypeId;
        macro_rules! all {
            ($p:ident, $t:ident; $($a:ident = $b:ty),* $(,)?) => { $( sym::check(TypeId::of::<<$t as ClientTypes>::$a>() == TypeId::of::<$b>(), concat!("the container of the preset: ", stringify!($a))); )* };
        }
        macro_rules! preset {
            ($p:ident, $t:ident) => { all!($p, $t; SignedContributionAndProof = altair::$p::SignedContributionAndProof, SyncCommitteeContribution = altair::$p::SyncCommitteeContribution,
                BlindedBeaconBlock = types::$p::BlindedBeaconBlock, SignedBlindedBeaconBlock = types::$p::SignedBlindedBeaconBlock, Attestation = phase0::$p::Attestation,
                AttesterSlashing = phase0::$p::AttesterSlashing, BeaconBlock = types::$p::BeaconBlock, BeaconState = types::$p::BeaconState, SignedAggregateAndProof = phase0::$p::SignedAggregateAndProof,
                SignedBeaconBlock = types::$p::SignedBeaconBlock, Blob = deneb::$p::Blob, BlobSidecar = deneb::$p::BlobSidecar, LightClientBootstrap = altair::$p::LightClientBootstrap,
                LightClientUpdate = altair::$p::LightClientUpdate, LightClientFinalityUpdate = altair::$p::LightClientFinalityUpdate, LightClientOptimisticUpdate = altair::$p::LightClientOptimisticUpdate) };
        }
        use beacon_api_client::mainnet::MainnetClientTypes;
        preset!(mainnet, MainnetClientTypes);
        preset!(minimal, MinimalClientTypes);
        sym::check(CONSENSUS_VERSION_HEADER.eq_ignore_ascii_case(ETH_CONSENSUS_VERSION_HEADER), "the header has one name");
        sym::cover("end");
    }
}
