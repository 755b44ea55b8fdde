//! C09, C10: operation builders.

use std::collections::BTreeMap;
use std::str::FromStr;

use amplify::confinement::Confined;
use amplify::Wrapper;
use bp::seals::txout::{BlindSeal, CloseMethod};
use commit_verify::Conceal;
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::*;
use rgbinvoice::{Allocation, Amount};
use rgbstd::containers::BuilderSeal;
use rgbstd::interface::{BuilderError, ContractBuilder, FilterIncludeAll, TransitionBuilder};
use rgbstd::persistence::{PersistedState, Stock};
use rgbinvoice::Precision;
use rgbstd::stl::{AssetSpec, Details};
use serde::{Deserialize, Serialize};
use strict_encoding::StrictSerialize;

use crate::env::*;
use crate::frame::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct SealG {
    pub tx: u8,
    pub vout: u8,
    pub blinding: u64,
    pub opret: bool,
    pub liquid: bool,
    pub concealed: bool,
}

impl SealG {
    pub fn layer1(&self) -> Layer1 { if self.liquid { Layer1::Liquid } else { Layer1::Bitcoin } }
    pub fn method(&self) -> CloseMethod { if self.opret { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst } }
    pub fn genesis(&self) -> XChain<GenesisSeal> {
        XChain::with(
            self.layer1(),
            BlindSeal::with_blinding(self.method(), txid(self.tx as u64), self.vout as u32, self.blinding),
        )
    }
    pub fn graph(&self) -> XChain<GraphSeal> {
        if self.tx == 0 {
            XChain::with(self.layer1(), GraphSeal::with_blinded_vout(self.method(), self.vout as u32, self.blinding))
        } else {
            self.genesis().transmutate()
        }
    }
    pub fn genesis_b(&self) -> BuilderSeal<GenesisSeal> {
        let s = self.genesis();
        if self.concealed { BuilderSeal::Concealed(s.conceal()) } else { BuilderSeal::Revealed(s) }
    }
    pub fn graph_b(&self) -> BuilderSeal<GraphSeal> {
        let s = self.graph();
        if self.concealed { BuilderSeal::Concealed(s.conceal()) } else { BuilderSeal::Revealed(s) }
    }
}

pub fn seal_g() -> impl Strategy<Value = SealG> {
    (0u8..3, 0u8..3, prop_oneof![3 => 0u64..2, 2 => any::<u64>()], any::<bool>(), prop::bool::weighted(0.1), prop::bool::weighted(0.2))
        .prop_map(|(tx, vout, blinding, opret, liquid, concealed)| SealG { tx, vout, blinding, opret, liquid, concealed })
}

/// State of any kind.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum StateG {
    Right,
    Amount(u64, u64),
    Token(u32, u64, u64),
    Doc(u8, u64),
}

pub fn blind(n: u64) -> BlindingFactor {
    let mut b = [0u8; 32];
    b[0] = 0x10;
    b[8..16].copy_from_slice(&n.to_be_bytes());
    b[31] = 1;
    BlindingFactor::try_from(b).unwrap()
}

pub fn attach_id(n: u8) -> AttachId { AttachId::from(amplify::Bytes32::from([n; 32])) }

impl StateG {
    pub fn persisted(&self, tag: AssetTag) -> PersistedState {
        match self {
            StateG::Right => PersistedState::Void,
            StateG::Amount(a, b) => PersistedState::Amount(Amount::from(*a), blind(*b), tag),
            StateG::Token(i, f, s) => {
                PersistedState::Data(DataState::from(Allocation::with(*i, *f)), *s as u128)
            }
            StateG::Doc(n, s) => {
                PersistedState::Attachment(AttachState { id: attach_id(*n), media_type: MediaType::Any }, *s)
            }
        }
    }
    pub fn natural(&self) -> u16 {
        match self {
            StateG::Right => RIGHT,
            StateG::Amount(_, b) if b & 1 == 0 => ASSET,
            StateG::Amount(_, _) => BONUS,
            StateG::Token(..) => TOKEN,
            StateG::Doc(..) => DOC,
        }
    }
    pub fn fits(&self, ty: u16) -> bool {
        match self {
            StateG::Right => ty == RIGHT,
            StateG::Amount(..) => ty == ASSET || ty == BONUS,
            StateG::Token(..) => ty == TOKEN,
            StateG::Doc(..) => ty == DOC,
        }
    }
    pub fn value(&self) -> Val {
        match self {
            StateG::Right => Val::Right,
            StateG::Amount(a, _) => Val::Amount(*a),
            StateG::Token(i, f, _) => Val::Data(Allocation::with(*i, *f).to_strict_serialized::<{ u16::MAX as usize }>().unwrap().to_vec()),
            StateG::Doc(n, _) => Val::Attach(attach_id(*n)),
        }
    }
}

/// Comparable meaning of a state: what a user specified, without blinding.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    Right,
    Amount(u64),
    Data(Vec<u8>),
    Attach(AttachId),
    Hidden,
}

pub fn state_g() -> impl Strategy<Value = StateG> {
    prop_oneof![
        2 => Just(StateG::Right),
        5 => (u64b(), any::<u64>()).prop_map(|(a, b)| StateG::Amount(a, b)),
        3 => (0u32..5, u64b(), any::<u64>()).prop_map(|(i, f, s)| StateG::Token(i, f, s)),
        2 => (0u8..4, any::<u64>()).prop_map(|(n, s)| StateG::Doc(n, s)),
    ]
}

/// Assignments of an operation in a comparable form.
pub type Assigned = BTreeMap<u16, Vec<(XChain<SecretSeal>, bool, Val)>>;

pub fn assigned<S: ExposedSeal>(assignments: &Assignments<S>) -> Assigned
{
    let mut out = Assigned::new();
    for (ty, a) in assignments.iter() {
        let list = out.entry(ty.to_inner()).or_default();
        fn go<St: ExposedState, S: ExposedSeal>(v: &[Assign<St, S>], list: &mut Vec<(XChain<SecretSeal>, bool, Val)>, f: impl Fn(&St) -> Val) {
            for a in v {
                list.push((a.to_confidential_seal(), a.revealed_seal().is_some(), a.as_revealed_state().map(&f).unwrap_or(Val::Hidden)));
            }
        }
        match a {
            TypedAssigns::Declarative(v) => go(v, list, |_| Val::Right),
            TypedAssigns::Fungible(v) => go(v, list, |s| Val::Amount(s.value.as_u64())),
            TypedAssigns::Structured(v) => go(v, list, |s| Val::Data(s.value.as_slice().to_vec())),
            TypedAssigns::Attachment(v) => go(v, list, |s| Val::Attach(s.file.id)),
        }
        list.sort();
    }
    out
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Tag { name: u8, salt: u64 },
    Global { name: u8, value: u64, wrong: bool },
    Memo { value: u64 },
    Owned { name: Option<u8>, seal: SealG, state: StateG, generic: bool },
    BadData { seal: SealG },
}

const NAMES: [&str; 8] = ["asset", "bonus", "token", "right", "doc", "spec", "unknown", "assets"];
const GNAMES: [&str; 5] = ["issuedSupply", "log", "note", "asset", "unknown"];

fn call() -> impl Strategy<Value = Call> {
    prop_oneof![
        1 => (0u8..8, any::<u64>()).prop_map(|(name, salt)| Call::Tag { name, salt }),
        5 => (prop_oneof![8 => 0u8..3, 1 => 3u8..5], u64b(), prop::bool::weighted(0.05))
            .prop_map(|(name, value, wrong)| Call::Global { name, value, wrong }),
        1 => u64b().prop_map(|value| Call::Memo { value }),
        14 => (prop::option::weighted(0.12, 0u8..8), seal_g(), state_g(), any::<bool>())
            .prop_map(|(name, seal, state, generic)| Call::Owned { name, seal, state, generic }),
        1 => seal_g().prop_map(|seal| Call::BadData { seal }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IssueCase {
    pub det: bool,
    pub mainnet: bool,
    pub liquid: bool,
    pub meta: bool,
    pub via_stock: bool,
    pub tags: (Option<u64>, Option<u64>),
    pub spec: Option<(String, u8)>,
    pub calls: Vec<Call>,
    pub ts: i32,
}

fn issue_case() -> impl Strategy<Value = IssueCase> {
    let tag = || prop::option::weighted(0.95, any::<u64>());
    (
        any::<bool>(), any::<bool>(), prop::bool::weighted(0.3), prop::bool::weighted(0.2), any::<bool>(), (tag(), tag()),
        prop::option::weighted(0.97, ("[A-Z]{2,6}", 0u8..19)), vec(call(), 0..24), any::<i32>(), (prop::bool::weighted(0.05), prop::bool::weighted(0.25)),
    )
        .prop_map(|(det, mainnet, liquid, meta, via_stock, tags, spec, mut calls, ts, (docs, spoil))| {
            if !spoil {
                let (mut supply, mut logs) = (0, 0);
                calls.retain(|c| match c {
                    Call::BadData { .. } => false,
                    Call::Tag { name, .. } => !(2..5).contains(name),
                    Call::Global { name: 0, wrong: false, .. } => {
                        supply += 1;
                        supply <= 1
                    }
                    Call::Global { name: 1, wrong: false, .. } => {
                        logs += 1;
                        logs <= 6
                    }
                    _ => true,
                });
            }
            for c in calls.iter_mut() {
                if let Call::Owned { state, .. } = c {
                    if let (StateG::Doc(n, s), false) = (&*state, docs) {
                        *state = StateG::Token(*n as u32, *s, *s)
                    }
                }
            }
            IssueCase { det, mainnet, liquid, meta, via_stock: via_stock && !det, tags, spec, calls, ts }
        })
}

pub fn asset_tag(salt: u64) -> AssetTag {
    AssetTag::new_deterministic("test", oty(ASSET), chrono::DateTime::from_timestamp(0, 0).unwrap(), salt)
}

pub fn spec(ticker: &str, prec: u8) -> AssetSpec {
    AssetSpec::new(Box::leak(ticker.to_owned().into_boxed_str()), "Test asset", Precision::try_from(prec).unwrap_or_default())
}

pub fn note(value: u64) -> Details { Details::from_str(&format!("note {value}")).unwrap() }

pub fn ser(v: &impl StrictSerialize) -> Vec<u8> { v.to_strict_serialized::<{ u16::MAX as usize }>().unwrap().to_vec() }

/// What the finished contract has to contain.
#[derive(Default, Debug, Clone)]
struct Model {
    globals: BTreeMap<u16, Vec<Vec<u8>>>,
    owned: Assigned,
    revealed: Vec<(u16, XChain<GenesisSeal>, Val)>,
    tags: BTreeMap<u16, Option<AssetTag>>,
    memo: Option<u64>,
    /// The contract breaks the schema, so that it must not be issued.
    bad: Vec<String>,
}

type Step<T> = Result<T, BuilderError>;

/// Applies a call to both the builder and the model.
fn apply(b: ContractBuilder, m: &mut Model, case: &IssueCase, call: &Call, cov: &mut Cov) -> Res<ContractBuilder> {
    let old = b.clone();
    let mut next = m.clone();
    // None: both are possible
    let expect_ok;
    let res: Step<ContractBuilder> = match call {
        Call::Tag { name, salt } => {
            let n = NAMES[*name as usize];
            let ty = OWNED.iter().find(|(_, o)| *o == n).map(|(t, _)| *t);
            let tag = asset_tag(*salt);
            match ty {
                None => expect_ok = Some(false),
                Some(t) if t == ASSET || t == BONUS => {
                    if next.owned.contains_key(&t) {
                        expect_ok = Some(false)
                    } else {
                        expect_ok = Some(true);
                        next.tags.insert(t, Some(tag));
                    }
                }
                Some(_) => {
                    expect_ok = None;
                    next.bad.push("tag of a non-fungible state".into());
                }
            }
            total("add_asset_tag", || b.add_asset_tag(n, tag))?
        }
        Call::Global { name, value, wrong } => {
            let n = GNAMES[*name as usize];
            let r;
            if *wrong {
                expect_ok = Some(false);
                r = total("add_global_state", || b.add_global_state("spec", Amount::from(value | 0xFF)))?;
            } else {
                expect_ok = Some(*name < 3);
                let (ty, bytes) = match *name {
                    0 => (SUPPLY, ser(&Amount::from(*value))),
                    1 => (LOG, ser(&Amount::from(*value))),
                    _ => (NOTE, ser(&note(*value))),
                };
                let list = next.globals.entry(ty).or_default();
                list.push(bytes);
                if (ty == SUPPLY && list.len() > 1) || (ty == LOG && list.len() > 6) {
                    next.bad.push(format!("too many values of {n}"));
                }
                r = total("add_global_state", || {
                    if *name == 2 { b.add_global_state(n, note(*value)) } else { b.add_global_state(n, Amount::from(*value)) }
                })?;
            }
            r
        }
        Call::Memo { value } => {
            expect_ok = Some(case.meta && next.memo.is_none());
            next.memo = Some(*value);
            total("add_metadata", || b.add_metadata("memo", Amount::from(*value)))?
        }
        Call::BadData { seal } => {
            let ok_layer = !seal.liquid || case.liquid;
            expect_ok = if ok_layer { None } else { Some(false) };
            next.bad.push("data of a wrong type".into());
            let r = total("add_data", || {
                if case.det {
                    b.add_data_det("token", seal.genesis_b(), RevealedData::with_salt(DataState::from(Confined::try_from(vec![1u8]).unwrap()), 0))
                } else {
                    b.add_data("token", seal.genesis_b(), Details::from_str("x").unwrap())
                }
            })?;
            r
        }
        Call::Owned { name, seal, state, generic } => {
            let n = name.map(|i| NAMES[i as usize]).unwrap_or_else(|| OWNED.iter().find(|(t, _)| *t == state.natural()).unwrap().1);
            let ty = OWNED.iter().find(|(_, o)| *o == n).map(|(t, _)| *t);
            let ok_layer = !seal.liquid || case.liquid;
            let tag = ty.and_then(|t| next.tags.get(&t)).copied().flatten();
            let mut missing_tag = false;
            if let (StateG::Amount(..), Some(t)) = (state, ty) {
                if case.det && *generic && tag.is_none() {
                    missing_tag = true
                } else if (t == ASSET || t == BONUS) && !next.tags.contains_key(&t) {
                    next.tags.insert(t, None);
                }
            }
            let fits = ty.map(|t| state.fits(t)).unwrap_or(false);
            expect_ok = if missing_tag && ok_layer && fits { None } else { Some(fits && ok_layer) };
            if let Some(t) = ty {
                next.owned.entry(t).or_default().push((seal.genesis().conceal(), !seal.concealed, state.value()));
                if !seal.concealed {
                    next.revealed.push((t, seal.genesis(), state.value()));
                }
            }
            let s = seal.genesis_b();
            let (n, ptag) = (n, tag.unwrap_or_else(|| asset_tag(0)));
            if name.is_some() {
                cov.class("odd-name");
            }
            total("adding state", || match (state, case.det) {
                (_, true) if *generic => b.add_owned_state_det(n, s, state.persisted(ptag)),
                (StateG::Right, _) => b.add_rights(n, s),
                (StateG::Amount(a, bl), true) => b.add_fungible_state_det(n, s, *a, blind(*bl)),
                (StateG::Amount(a, _), false) => b.add_fungible_state(n, s, *a),
                (StateG::Token(i, f, salt), true) => {
                    b.add_data_det(n, s, RevealedData::with_salt(DataState::from(Allocation::with(*i, *f)), *salt as u128))
                }
                (StateG::Token(i, f, _), false) => b.add_data(n, s, Allocation::with(*i, *f)),
                (StateG::Doc(id, salt), true) => {
                    b.add_attachment_det(n, s, RevealedAttach::with_salt(attach_id(*id), MediaType::Any, *salt))
                }
                (StateG::Doc(id, _), false) => {
                    b.add_attachment(n, s, AttachState { id: attach_id(*id), media_type: MediaType::Any })
                }
            })?
        }
    };
    match (res, expect_ok) {
        (Ok(nb), Some(true)) | (Ok(nb), None) => {
            *m = next;
            Ok(nb)
        }
        (Err(_), Some(false)) | (Err(_), None) => {
            cov.class("refused-call");
            Ok(old)
        }
        (Ok(_), Some(false)) => fail!("a wrong request was accepted: {call:?}"),
        (Err(e), Some(true)) => fail!("a correct request was refused with `{e}`: {call:?}"),
    }
}

pub fn env_for(meta: bool) -> Env {
    thread_local! {
        static ENVS: [Env; 2] = [false, true].map(|meta| Env::new(SchemaParams { log_limit: 6, variant: meta as u8, meta }));
    }
    ENVS.with(|e| e[meta as usize].clone())
}

fn check_issue(case: &IssueCase, cov: &mut Cov) -> Res {
    let env = env_for(case.meta);
    let issuer = Identity::from_str("ssi:issuer").unwrap();
    let mut stock = Stock::in_memory();
    let mut b = if case.via_stock {
        stock.import_kit(env.valid_kit()).map_err(|e| Fail::new(format!("kit refused: {e}")))?;
        stock
            .contract_builder(issuer.clone(), env.schema.schema_id(), env.iface.iface_id())
            .map_err(|e| Fail::new(format!("contract builder: {e}")))?
    } else if case.det {
        ContractBuilder::deterministic(issuer.clone(), env.iface.clone(), env.schema.clone(), env.iimpl.clone(), env.types.clone(), env.scripts.clone())
    } else {
        ContractBuilder::with(issuer.clone(), env.iface.clone(), env.schema.clone(), env.iimpl.clone(), env.types.clone(), env.scripts.clone())
    };
    let mut m = Model::default();
    if case.mainnet {
        b = b.set_mainnet();
    }
    if case.liquid {
        b = b.add_layer1(AltLayer1::Liquid).map_err(|e| Fail::new(format!("layer 1 refused: {e}")))?;
    }
    for (ty, name, salt) in [(ASSET, "asset", case.tags.0), (BONUS, "bonus", case.tags.1)] {
        if let Some(salt) = salt {
            b = b.add_asset_tag(name, asset_tag(salt)).map_err(|e| Fail::new(format!("tag refused: {e}")))?;
            m.tags.insert(ty, Some(asset_tag(salt)));
        }
    }
    if let Some((t, p)) = &case.spec {
        let spec = spec(t, *p);
        m.globals.insert(SPEC, vec![ser(&spec)]);
        b = b.add_global_state("spec", spec).map_err(|e| Fail::new(format!("spec refused: {e}")))?;
    }
    if case.meta && case.calls.iter().all(|c| !matches!(c, Call::Memo { .. })) && case.ts % 8 != 0 {
        b = apply(b, &mut m, case, &Call::Memo { value: 7 }, cov)?;
    }
    for call in &case.calls {
        b = apply(b, &mut m, case, call, cov)?;
    }
    if case.spec.is_none() {
        m.bad.push("no spec".into());
    }
    for ty in [ASSET, BONUS] {
        if !m.tags.contains_key(&ty) {
            m.bad.push(format!("no asset tag for {ty}"));
        }
    }
    if case.meta && m.memo.is_none() {
        m.bad.push("no metadata".into());
    }
    let res = total("issue", || if case.det { b.issue_contract_det(case.ts as i64) } else { b.issue_contract() })?;
    let contract = match res {
        Ok(_) if !m.bad.is_empty() => fail!("invalid contract was issued: {:?}", m.bad),
        Err(_) if !m.bad.is_empty() => {
            cov.class("not-issuable");
            cov.nontrivial();
            return Ok(());
        }
        Err(BuilderError::ContractInconsistency(status))
            if m.owned.contains_key(&DOC)
                && status.failures.iter().all(|f| {
                    matches!(f, rgb::validation::Failure::StateTypeMismatch { state_type, expected: StateType::Attachment, found: StateType::Attachment, .. } if *state_type == oty(DOC))
                }) =>
        {
            return Err(Fail::sig("attachments-are-never-valid", format!("correct contract with an attachment was not issued: {status}")));
        }
        Err(e) => fail!("correct contract was not issued: {e}"),
        Ok(c) => c,
    };
    let g = &contract.genesis;
    for list in m.owned.values_mut() {
        list.sort();
    }
    ensure_eq!(assigned(&g.assignments), m.owned, "owned state of the issued contract");
    let globals: BTreeMap<u16, Vec<Vec<u8>>> =
        g.globals.iter().map(|(t, v)| (t.to_inner(), v.iter().map(|d| d.as_slice().to_vec()).collect())).collect();
    ensure_eq!(globals, m.globals, "global state of the issued contract");
    ensure_eq!(g.testnet, !case.mainnet, "testnet flag");
    ensure_eq!(g.alt_layers1.iter().copied().collect::<Vec<_>>(), case.liquid.then_some(AltLayer1::Liquid).into_iter().collect::<Vec<_>>(), "layers");
    ensure_eq!(g.issuer, issuer, "issuer");
    ensure_eq!(g.schema_id, env.schema.schema_id(), "schema id");
    if case.det {
        ensure_eq!(g.timestamp, case.ts as i64, "timestamp");
    }
    ensure_eq!(g.asset_tags.keys().map(|t| t.to_inner()).collect::<Vec<_>>(), m.tags.keys().copied().collect::<Vec<_>>(), "types with asset tags");
    for (ty, tag) in &m.tags {
        if let Some(tag) = tag {
            ensure_eq!(g.asset_tags.get(&oty(*ty)), Some(tag), "asset tag of {ty}");
        }
    }
    for (ty, a) in g.assignments.iter() {
        if let TypedAssigns::Fungible(v) = a {
            for a in v.iter() {
                let s = a.as_revealed_state().expect("checked above");
                ensure_eq!(Some(&s.tag), g.asset_tags.get(ty), "asset tag within the state of {ty}");
            }
        }
    }
    ensure_eq!(
        g.metadata.get(&MetaType::with(META)).map(|v| v.as_slice().to_vec()),
        m.memo.map(|v| ser(&Amount::from(v))),
        "metadata"
    );
    // Blinding factors must be those provided, except for the balancing one
    if case.det {
        let mut given = BTreeMap::<u16, Vec<BlindingFactor>>::new();
        for c in &case.calls {
            if let Call::Owned { state: StateG::Amount(_, b), .. } = c {
                given.entry(0).or_default().push(blind(*b));
            }
        }
        for a in g.assignments.values() {
            if let TypedAssigns::Fungible(v) = a {
                let foreign = v.iter().filter(|a| !given.get(&0).map(|g| g.contains(&a.as_revealed_state().unwrap().blinding)).unwrap_or(false)).count();
                ensure!(foreign <= 1, "provided blinding factors are not used");
            }
        }
    }
    // View in a stock
    let id = contract.genesis.contract_id();
    let chain = Chain::default();
    total("import", || stock.import_contract(contract.clone(), &chain))?.map_err(|e| Fail::new(format!("issued contract is not importable: {e}")))?;
    let view = total("view", || stock.contract_iface(id, env.iface.iface_id()))?.map_err(|e| Fail::new(format!("no interface view: {e}")))?;
    for (ty, name) in [(SPEC, "spec"), (SUPPLY, "issuedSupply"), (LOG, "log"), (NOTE, "note")] {
        let got = total("global view", || view.global(name).map(|i| i.collect::<Vec<_>>()))?.map_err(|e| Fail::new(e.to_string()))?;
        let sem_id = env.schema.global_types.get(&gty(ty)).unwrap().sem_id;
        let want = m
            .globals
            .get(&ty)
            .into_iter()
            .flatten()
            .map(|b| env.types.strict_deserialize_type(sem_id, b).unwrap().unbox())
            .collect::<Vec<_>>();
        ensure_eq!(got, want, "view of {name}");
    }
    let mut got: Vec<(u16, XOutputSeal, Val)> = vec![];
    let e = |e: rgbstd::interface::ContractError| Fail::new(e.to_string());
    for (ty, name) in OWNED {
        match ty {
            ASSET | BONUS => got.extend(view.fungible(name, FilterIncludeAll).map_err(e)?.map(|a| (ty, a.seal, Val::Amount(a.state.value())))),
            TOKEN => got.extend(view.data(name, FilterIncludeAll).map_err(e)?.map(|a| (ty, a.seal, Val::Data(a.state.as_slice().to_vec())))),
            RIGHT => got.extend(view.rights(name, FilterIncludeAll).map_err(e)?.map(|a| (ty, a.seal, Val::Right))),
            _ => got.extend(view.attachments(name, FilterIncludeAll).map_err(e)?.map(|a| (ty, a.seal, Val::Attach(a.state.id)))),
        }
    }
    got.sort();
    let mut want = m.revealed.iter().map(|(t, s, v)| (*t, s.to_output_seal().unwrap(), v.clone())).collect::<Vec<_>>();
    want.sort();
    ensure_eq!(got, want, "interface view of owned state");
    ensure_eq!(view.info.id, id, "contract id in the view");
    ensure_eq!(view.info.issuer, issuer, "issuer in the view");
    ensure_eq!(view.info.testnet, !case.mainnet, "testnet in the view");
    if m.owned.values().map(|v| v.len()).sum::<usize>() >= 2 {
        cov.nontrivial();
    }
    cov.class_if(m.owned.values().any(|v| v.windows(2).any(|w| w[0].0 == w[1].0)), "same-seal");
    cov.class_if(m.owned.values().flatten().any(|v| !v.1), "concealed-seal");
    cov.class_if(m.globals.get(&LOG).map(|l| l.len() > 1).unwrap_or(false), "several-globals");
    cov.class(if case.det { "deterministic" } else { "random" });
    cov.class(format!("{}-types", m.owned.len()));
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("issue: at least two owned states were put into the contract, or the contract breaks the schema and has to be refused");
    ctx.check("issue", 6000, 60000, issue_case, check_issue);
}

// ---------------------------------------------------------------------------
// C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DetCase {
    pub liquid: bool,
    pub owned: Vec<(SealG, StateG)>,
    pub logs: Vec<u64>,
    pub notes: Vec<u64>,
    pub inputs: Vec<(u8, u16, StateG)>,
    pub nonce: u64,
    pub kind: u8,
    /// sort keys for the order of adding
    pub order: Vec<u16>,
}

fn det_case() -> impl Strategy<Value = DetCase> {
    (
        any::<bool>(), vec((seal_g(), state_g()), 0..10), vec(u64b(), 0..4), vec(u64b(), 0..4),
        vec((0u8..4, 0u16..6, state_g()), 1..6), u64b(), 0u8..4, vec(any::<u16>(), 24),
    )
        .prop_map(|(liquid, mut owned, logs, notes, inputs, nonce, kind, order)| {
            // Balancing requires the total of blinding factors to be non-zero: keep them distinct
            for (i, (_, s)) in owned.iter_mut().enumerate() {
                if let StateG::Amount(_, b) = s {
                    *b = (*b % 1000) * 64 * 2 + 2 * i as u64 + (*b & 1);
                }
            }
            let inputs = inputs
                .into_iter()
                .enumerate()
                .map(|(i, (o, n, s))| {
                    (o, n, match s {
                        StateG::Amount(a, b) => StateG::Amount(a, 1_000_000 + ((b % 1000) * 64 + 2 * i as u64) * 2 + (b & 1)),
                        s => s,
                    })
                })
                .collect();
            DetCase { liquid, owned, logs, notes, inputs, nonce, kind, order }
        })
}

enum Add<'a> {
    Layer,
    Tag(&'static str, u64),
    Spec,
    Log(u64),
    Note(u64),
    Owned(&'a SealG, &'a StateG),
    Input(Opout, &'a StateG),
    Nonce,
}

/// Elements in an order given by `order`; elements whose relative order matters keep it.
fn ordered(case: &DetCase, genesis: bool, permute: bool) -> Vec<Add<'_>> {
    let mut pre = vec![];
    if genesis {
        if case.liquid {
            pre.push(Add::Layer);
        }
        pre.push(Add::Spec);
    } else {
        pre.push(Add::Nonce);
    }
    pre.push(Add::Tag("asset", 1));
    pre.push(Add::Tag("bonus", 2));
    // dependencies (layers and tags) come first, in any order
    let mut list: Vec<(u16, Add)> = vec![];
    for a in pre {
        list.push((0, a));
    }
    if permute {
        let n = list.len();
        for (i, e) in list.iter_mut().enumerate() {
            e.0 = case.order[i % case.order.len()] % 1000;
            let _ = n;
        }
    }
    let mut rest: Vec<(u16, Add)> = vec![];
    let key = |i: usize| if permute { case.order[i % case.order.len()] } else { 0 };
    // lists with an order of their own get increasing keys
    let mut keys: Vec<u16> = (0..case.logs.len()).map(|i| key(i + 3)).collect();
    keys.sort();
    for (k, l) in keys.into_iter().zip(&case.logs) {
        rest.push((k, Add::Log(*l)));
    }
    let mut keys: Vec<u16> = (0..case.notes.len()).map(|i| key(i + 7)).collect();
    keys.sort();
    for (k, l) in keys.into_iter().zip(&case.notes) {
        rest.push((k, Add::Note(*l)));
    }
    let mut by_seal = BTreeMap::<(SealG, u16), u16>::new();
    for (i, (seal, state)) in case.owned.iter().enumerate() {
        // states on the same seal keep their order
        let k = *by_seal.entry((*seal, state.natural())).or_insert(key(i + 11));
        rest.push((k, Add::Owned(seal, state)));
    }
    if !genesis {
        let mut seen = vec![];
        for (i, (op, no, state)) in case.inputs.iter().enumerate() {
            let opout = Opout::new(OpId::from(amplify::Bytes32::from([*op; 32])), oty(state.natural()), *no);
            if seen.contains(&opout) {
                continue;
            }
            seen.push(opout);
            rest.push((key(i + 17), Add::Input(opout, state)));
        }
    }
    list.sort_by_key(|(k, _)| *k);
    rest.sort_by_key(|(k, _)| *k);
    list.into_iter().chain(rest).map(|(_, a)| a).collect()
}

fn det_genesis(case: &DetCase, permute: bool, det: bool) -> Res<Genesis> {
    let env = env_for(false);
    let args = (Identity::default(), env.iface.clone(), env.schema.clone(), env.iimpl.clone(), env.types.clone(), env.scripts.clone());
    let mut b = if det {
        ContractBuilder::deterministic(args.0, args.1, args.2, args.3, args.4, args.5)
    } else {
        ContractBuilder::with(args.0, args.1, args.2, args.3, args.4, args.5)
    };
    for add in ordered(case, true, permute) {
        let r = match add {
            Add::Layer => b.add_layer1(AltLayer1::Liquid),
            Add::Tag(n, s) => b.add_asset_tag(n, asset_tag(s)),
            Add::Spec => b.add_global_state("spec", spec("TEST", 2)),
            Add::Log(v) => b.add_global_state("log", Amount::from(v)),
            Add::Note(v) => b.add_global_state("note", note(v)),
            Add::Owned(seal, state) => {
                if (seal.liquid && !case.liquid) || matches!(state, StateG::Doc(..)) {
                    continue;
                }
                let n = owned_name(state.natural());
                let s = seal.genesis_b();
                match (state, det) {
                    (StateG::Right, _) => b.add_rights(n, s),
                    (StateG::Amount(a, bl), true) => b.add_fungible_state_det(n, s, *a, blind(*bl)),
                    (StateG::Amount(a, _), false) => b.add_fungible_state(n, s, *a),
                    (_, true) => b.add_owned_state_det(n, s, state.persisted(asset_tag(0))),
                    (StateG::Token(i, f, _), false) => b.add_data(n, s, Allocation::with(*i, *f)),
                    (StateG::Doc(id, _), false) => {
                        b.add_attachment(n, s, AttachState { id: attach_id(*id), media_type: MediaType::Any })
                    }
                }
            }
            Add::Input(..) | Add::Nonce => continue,
        };
        b = r.map_err(|e| Fail::new(format!("correct request refused: {e}")))?;
    }
    let r = total("issue", || if det { b.issue_contract_det(1_700_000_000) } else { b.issue_contract() })?;
    Ok(r.map_err(|e| Fail::new(format!("correct contract was not issued: {e}")))?.genesis.clone())
}

fn det_transition(case: &DetCase, permute: bool, det: bool) -> Res<Transition> {
    let env = env_for(false);
    let cid = ContractId::from(amplify::Bytes32::from([7; 32]));
    let (iface, schema, iimpl, types) = (env.iface.clone(), env.schema.clone(), env.iimpl.clone(), env.types.clone());
    let e = |e: BuilderError| Fail::new(format!("builder refused: {e}"));
    let mut b = match (case.kind, det) {
        (0, true) => TransitionBuilder::blank_transition_det(cid, iface, schema, iimpl, types),
        (0, false) => TransitionBuilder::blank_transition(cid, iface, schema, iimpl, types),
        (1, true) => TransitionBuilder::default_transition_det(cid, iface, schema, iimpl, types).map_err(e)?,
        (1, false) => TransitionBuilder::default_transition(cid, iface, schema, iimpl, types).map_err(e)?,
        (k, true) => TransitionBuilder::named_transition_det(cid, iface, schema, iimpl, if k == 2 { "transfer" } else { "record" }, types).map_err(e)?,
        (k, false) => TransitionBuilder::named_transition(cid, iface, schema, iimpl, if k == 2 { "transfer" } else { "record" }, types).map_err(e)?,
    };
    for add in ordered(case, false, permute) {
        let r = match add {
            Add::Nonce => Ok(b.set_nonce(case.nonce)),
            Add::Tag(n, s) => b.add_asset_tag(n, asset_tag(s)),
            Add::Log(v) => b.add_global_state("log", Amount::from(v)),
            Add::Note(v) => b.add_global_state("note", note(v)),
            Add::Owned(seal, state) => {
                let n = owned_name(state.natural());
                let tag = asset_tag(if state.natural() == ASSET { 1 } else { 2 });
                let s = seal.graph_b();
                match (state, det) {
                    (StateG::Right, _) => b.add_rights(n, s),
                    (StateG::Amount(a, bl), true) if a % 3 == 0 => b.add_fungible_state_det(n, s, *a, blind(*bl)),
                    (StateG::Amount(a, bl), true) if a % 3 == 1 => b.add_fungible_state_raw(oty(state.natural()), s, *a, blind(*bl)),
                    (StateG::Amount(a, _), false) if a % 2 == 0 && state.natural() == ASSET && case.kind != 0 && case.kind != 3 => {
                        b.add_fungible_default_state(s, *a)
                    }
                    (StateG::Amount(a, _), false) => b.add_fungible_state(n, s, *a),
                    (StateG::Token(i, f, salt), true) if i % 2 == 0 => b.add_data_raw(oty(TOKEN), s, Allocation::with(*i, *f), *salt),
                    (_, true) if case.nonce % 2 == 0 => b.add_owned_state_det(n, s, state.persisted(tag)),
                    (_, true) => b.add_owned_state_raw(oty(state.natural()), s, state.persisted(tag)),
                    (StateG::Token(i, f, _), false) => b.add_data(n, s, Allocation::with(*i, *f)),
                    (StateG::Doc(id, _), false) => {
                        b.add_attachment(n, s, AttachState { id: attach_id(*id), media_type: MediaType::Any })
                    }
                }
            }
            Add::Input(opout, state) => b.add_input(opout, state.persisted(asset_tag(if state.natural() == ASSET { 1 } else { 2 }))),
            Add::Layer | Add::Spec => continue,
        };
        b = r.map_err(e)?;
    }
    total("completing", || b.complete_transition())?.map_err(e)
}

/// Sum of fungible commitments of inputs equals that of outputs only if blinding factors are balanced.
pub fn balanced(ins: &[BlindingFactor], outs: &[BlindingFactor]) -> bool {
    let zero = Amount::from(0u64);
    let com = |b: &BlindingFactor| {
        secp256k1_zkp::PedersenCommitment::from_slice(
            &strict(&RevealedValue::with_blinding(zero, *b, asset_tag(0)).conceal().commitment),
        )
        .expect("valid commitment")
    };
    let ins: Vec<_> = ins.iter().map(com).collect();
    let outs: Vec<_> = outs.iter().map(com).collect();
    secp256k1_zkp::verify_commitments_sum_to_equal(secp256k1_zkp::SECP256K1, &ins, &outs)
}

fn check_det(case: &DetCase, cov: &mut Cov) -> Res {
    // genesis
    let a = det_genesis(case, false, true)?;
    let b = det_genesis(case, false, true)?;
    let c = det_genesis(case, true, true)?;
    ensure_eq!(enc(&a), enc(&b), "the same genesis built twice differs");
    ensure_eq!(enc(&a), enc(&c), "genesis depends on the order of adding its elements");
    ensure_eq!(a.contract_id(), c.contract_id(), "contract id");
    let r = det_genesis(case, true, false)?;
    ensure_eq!(assigned(&a.assignments), assigned(&r.assignments), "random genesis has other owned state");
    ensure_eq!(a.globals, r.globals, "random genesis has other global state");
    ensure_eq!(a.asset_tags, r.asset_tags, "random genesis has other asset tags");
    // transition
    let a = det_transition(case, false, true)?;
    let b = det_transition(case, false, true)?;
    let c = det_transition(case, true, true)?;
    ensure_eq!(enc(&a), enc(&b), "the same transition built twice differs");
    ensure_eq!(enc(&a), enc(&c), "transition depends on the order of adding its elements");
    ensure_eq!(a.id(), c.id(), "transition id");
    ensure_eq!(a.nonce, case.nonce, "nonce");
    let want_ty = match case.kind {
        0 => TransitionType::BLANK,
        1 | 2 => TransitionType::with(TRANSFER),
        _ => TransitionType::with(RECORD),
    };
    ensure_eq!(a.transition_type, want_ty, "transition type");
    let r = det_transition(case, true, false)?;
    ensure_eq!(assigned(&a.assignments), assigned(&r.assignments), "random transition has other owned state");
    ensure_eq!(a.globals, r.globals, "random transition has other global state");
    ensure_eq!(a.inputs, r.inputs, "random transition has other inputs");
    // what was specified
    let mut want = Assigned::new();
    for (seal, state) in &case.owned {
        want.entry(state.natural()).or_default().push((seal.graph().conceal(), !seal.concealed, state.value()));
    }
    for l in want.values_mut() {
        l.sort();
    }
    ensure_eq!(assigned(&a.assignments), want, "owned state of the transition");
    let globals: BTreeMap<u16, Vec<Vec<u8>>> =
        a.globals.iter().map(|(t, v)| (t.to_inner(), v.iter().map(|d| d.as_slice().to_vec()).collect())).collect();
    let mut want = BTreeMap::new();
    if !case.logs.is_empty() {
        want.insert(LOG, case.logs.iter().map(|l| ser(&Amount::from(*l))).collect::<Vec<_>>());
    }
    if !case.notes.is_empty() {
        want.insert(NOTE, case.notes.iter().map(|l| ser(&note(*l))).collect());
    }
    ensure_eq!(globals, want, "global state of the transition");
    // balance of blinding factors: independent of how they were chosen
    for t in [&a, &r] {
        for ty in [ASSET, BONUS] {
            let ins: Vec<BlindingFactor> = ordered(case, false, false)
                .iter()
                .filter_map(|x| match x {
                    Add::Input(o, StateG::Amount(_, b)) if o.ty == oty(ty) => Some(blind(*b)),
                    _ => None,
                })
                .collect();
            let Some(TypedAssigns::Fungible(v)) = t.assignments.get(&oty(ty)) else { continue };
            let outs: Vec<BlindingFactor> = v.iter().map(|a| a.as_revealed_state().unwrap().blinding).collect();
            if ins.is_empty() {
                continue;
            }
            ensure!(
                balanced(&ins, &outs),
                "blinding factors of the transition outputs do not balance its inputs"
            );
            cov.class("balanced");
        }
    }
    if case.owned.len() >= 2 {
        cov.nontrivial();
    }
    cov.class_if(case.owned.iter().filter(|(_, s)| *s == StateG::Right).count() > 1, "several-rights");
    cov.class(format!("kind{}", case.kind));
    Ok(())
}

pub fn strict(v: &impl strict_encoding::StrictEncode) -> Vec<u8> {
    let w = strict_encoding::StrictWriter::in_memory::<{ u32::MAX as usize >> 8 }>();
    v.strict_encode(w).expect("in memory").unbox().unconfine()
}
fn enc(v: &impl strict_encoding::StrictEncode) -> Vec<u8> { strict(v) }

pub fn c10(ctx: &Ctx) {
    ctx.rule("builders: at least two owned states are added; their order is permuted; payments: at least two composed");
    ctx.check("builders", 4000, 60000, det_case, check_det);
    crate::flows::c10_payments(ctx);
}
