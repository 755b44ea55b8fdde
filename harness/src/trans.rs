//! C28: transition builder.

use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

use amplify::Wrapper;
use commit_verify::Conceal;
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::*;
use rgbinvoice::{Allocation, Amount};
use rgbstd::interface::{BuilderError, ContractBuilder, TransitionBuilder};
use rgbstd::persistence::Stock;
use serde::{Deserialize, Serialize};

use crate::build::*;
use crate::env::*;
use crate::frame::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};

const NAMES: [&str; 8] = ["asset", "bonus", "token", "right", "doc", "spec", "unknown", "assets"];
const GNAMES: [&str; 6] = ["log", "note", "issuedSupply", "asset", "unknown", "logs"];
const OPS: [&str; 5] = ["transfer", "pay", "record", "unknown", "asset"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Nonce(u64),
    Tag { name: u8, salt: u64, raw: bool },
    Global { name: u8, value: u64, wrong: bool },
    Memo { value: u64, wrong: bool },
    Input { op: u8, no: u16, state: StateG },
    Owned { name: Option<u8>, seal: SealG, state: StateG, how: u8, other_tag: bool },
}

fn call() -> impl Strategy<Value = Call> {
    prop_oneof![
        1 => u64b().prop_map(Call::Nonce),
        1 => (0u8..8, any::<u64>(), any::<bool>()).prop_map(|(name, salt, raw)| Call::Tag { name, salt, raw }),
        4 => (prop_oneof![8 => 0u8..3, 1 => 3u8..6], u64b(), prop::bool::weighted(0.08))
            .prop_map(|(name, value, wrong)| Call::Global { name, value, wrong }),
        1 => (u64b(), prop::bool::weighted(0.2)).prop_map(|(value, wrong)| Call::Memo { value, wrong }),
        5 => (0u8..4, 0u16..4, state_g()).prop_map(|(op, no, state)| Call::Input { op, no, state }),
        10 => (prop::option::weighted(0.12, 0u8..8), seal_g(), state_g(), 0u8..5, prop::bool::weighted(0.08))
            .prop_map(|(name, seal, state, how, other_tag)| Call::Owned { name, seal, state, how, other_tag }),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TransCase {
    pub det: bool,
    pub meta: bool,
    pub via_stock: bool,
    /// 0: blank, 1: default, otherwise named
    pub kind: u8,
    pub tags: (Option<u64>, Option<u64>),
    pub calls: Vec<Call>,
}

fn trans_case() -> impl Strategy<Value = TransCase> {
    let tag = || prop::option::weighted(0.9, any::<u64>());
    (
        any::<bool>(), prop::bool::weighted(0.4), any::<bool>(), prop_oneof![4 => 0u8..5, 1 => Just(5u8)],
        (tag(), tag()), vec(call(), 0..26),
    )
        .prop_map(|(det, meta, via_stock, kind, tags, mut calls)| {
            // Balancing requires the total of blinding factors to be non-zero: keep them distinct
            for (i, c) in calls.iter_mut().enumerate() {
                match c {
                    Call::Owned { state: StateG::Amount(_, b), .. } => *b = (*b % 1000) * 128 + 2 * i as u64 + (*b & 1),
                    Call::Input { state: StateG::Amount(_, b), .. } => *b = 1_000_000 + (*b % 1000) * 128 + 2 * i as u64 + (*b & 1),
                    _ => {}
                }
            }
            TransCase { det, meta, via_stock: via_stock && !det, kind, tags, calls }
        })
}

#[derive(Clone, Debug)]
struct Model {
    nonce: u64,
    globals: BTreeMap<u16, Vec<Vec<u8>>>,
    memo: Option<u64>,
    owned: Assigned,
    inputs: BTreeMap<Opout, StateG>,
    tags: BTreeMap<u16, AssetTag>,
    /// secrets of the state which were provided by the caller
    blindings: BTreeMap<u16, Vec<BlindingFactor>>,
    salts: BTreeMap<u16, Vec<u128>>,
}

struct Known {
    stock: Stock,
    env: Env,
    id: ContractId,
}

/// A stock with a contract for each of the environments.
fn known(meta: bool) -> Rc<Known> {
    thread_local! {
        static KNOWN: [Rc<Known>; 2] = [false, true].map(|meta| {
            let env = env_for(meta);
            let mut b = ContractBuilder::deterministic(
                Identity::default(), env.iface.clone(), env.schema.clone(), env.iimpl.clone(), env.types.clone(), env.scripts.clone(),
            );
            b = b.add_global_state("spec", spec("TEST", 2)).unwrap();
            b = b.add_asset_tag("asset", asset_tag(101)).unwrap().add_asset_tag("bonus", asset_tag(102)).unwrap();
            if meta {
                b = b.add_metadata("memo", Amount::from(1u64)).unwrap();
            }
            let contract = b.issue_contract_det(1_700_000_000).expect("valid contract");
            let id = contract.genesis.contract_id();
            let mut stock = Stock::in_memory();
            stock.import_kit(env.valid_kit()).expect("valid kit");
            stock.import_contract(contract, &Chain::default()).expect("valid contract");
            Rc::new(Known { stock, env, id })
        });
    }
    KNOWN.with(|k| k[meta as usize].clone())
}

fn type_of(name: &str) -> Option<u16> { OWNED.iter().find(|(_, o)| *o == name).map(|(t, _)| *t) }
fn fungible(ty: u16) -> bool { ty == ASSET || ty == BONUS }

/// Applies a call to both the builder and the model.
fn apply(b: TransitionBuilder, m: &mut Model, case: &TransCase, call: &Call, cov: &mut Cov) -> Res<TransitionBuilder> {
    let old = b.clone();
    let mut next = m.clone();
    let expect_ok;
    let res: Result<TransitionBuilder, BuilderError> = match call {
        Call::Nonce(n) => {
            next.nonce = *n;
            expect_ok = true;
            Ok(b.set_nonce(*n))
        }
        Call::Tag { name, salt, raw } => {
            let n = NAMES[*name as usize];
            let ty = type_of(n);
            expect_ok = ty.map(|t| !fungible(t) || !next.owned.contains_key(&t)).unwrap_or(false);
            let tag = asset_tag(*salt);
            if let Some(t) = ty {
                next.tags.insert(t, tag);
            }
            match ty {
                Some(t) if *raw => total("add_asset_tag_raw", || b.add_asset_tag_raw(oty(t), tag))?,
                _ => total("add_asset_tag", || b.add_asset_tag(n, tag))?,
            }
        }
        Call::Global { name, value, wrong } => {
            if *wrong {
                expect_ok = false;
                total("add_global_state", || b.add_global_state("spec", Amount::from(value | 0xFF)))?
            } else {
                let n = GNAMES[*name as usize];
                expect_ok = *name < 3;
                let (ty, bytes) = match *name {
                    0 => (LOG, ser(&Amount::from(*value))),
                    1 => (NOTE, ser(&note(*value))),
                    _ => (SUPPLY, ser(&Amount::from(*value))),
                };
                next.globals.entry(ty).or_default().push(bytes);
                total("add_global_state", || {
                    if *name == 1 { b.add_global_state(n, note(*value)) } else { b.add_global_state(n, Amount::from(*value)) }
                })?
            }
        }
        Call::Memo { value, wrong } => {
            expect_ok = case.meta && next.memo.is_none() && !*wrong;
            next.memo = Some(*value);
            total("add_metadata", || {
                if *wrong && value % 2 == 0 {
                    b.add_metadata("memos", Amount::from(*value))
                } else if *wrong {
                    b.add_metadata("memo", note(*value % 10))
                } else {
                    b.add_metadata("memo", Amount::from(*value))
                }
            })?
        }
        Call::Input { op, no, state } => {
            let ty = state.natural();
            let opout = Opout::new(OpId::from(amplify::Bytes32::from([*op; 32])), oty(ty), *no);
            expect_ok = true;
            next.inputs.insert(opout, state.clone());
            let tag = next.tags.get(&ty).copied().unwrap_or_else(|| asset_tag(0));
            total("add_input", || b.add_input(opout, state.persisted(tag)))?
        }
        Call::Owned { name, seal, state, how, other_tag } => {
            let n = name.map(|i| NAMES[i as usize]).unwrap_or_else(|| OWNED.iter().find(|(t, _)| *t == state.natural()).unwrap().1);
            let ty = type_of(n);
            if name.is_some() {
                cov.class("odd-name");
            }
            let amount = matches!(state, StateG::Amount(..));
            let known = ty.and_then(|t| next.tags.get(&t)).copied();
            // ways of adding which take the tag together with the state
            let whole = (*how == 1 && case.det) || *how == 2;
            let tag = if *other_tag || known.is_none() { asset_tag(0x5EED) } else { known.unwrap() };
            // the way which doesn't name the state
            let default = (*how == 4 && name.is_none())
                .then(|| match (case.kind, state) {
                    (1 | 2 | 3, StateG::Amount(..)) => state.natural() == ASSET,
                    _ => false,
                })
                .unwrap_or(false);
            let fits = ty.map(|t| state.fits(t)).unwrap_or(false);
            expect_ok = fits && (!amount || (known.is_some() && !(whole && *other_tag && ty.is_some())));
            if amount && whole && *other_tag {
                cov.class("foreign-tag");
            }
            if let Some(t) = ty {
                next.owned.entry(t).or_default().push((seal.graph().conceal(), !seal.concealed, state.value()));
                match state {
                    StateG::Amount(_, b) => next.blindings.entry(t).or_default().push(blind(*b)),
                    StateG::Token(_, _, s) | StateG::Doc(_, s) if case.det || *how == 2 => {
                        next.salts.entry(t).or_default().push(*s as u128)
                    }
                    StateG::Token(_, _, s) if *how == 3 => next.salts.entry(t).or_default().push(*s as u128),
                    _ => {}
                }
            }
            let s = seal.graph_b();
            total("adding state", || match (state, ty, how) {
                (_, _, 1) if case.det => b.add_owned_state_det(n, s, state.persisted(tag)),
                (_, Some(t), 2) => b.add_owned_state_raw(oty(t), s, state.persisted(tag)),
                (StateG::Amount(a, bl), Some(t), 3) => b.add_fungible_state_raw(oty(t), s, *a, blind(*bl)),
                (StateG::Token(i, f, salt), Some(t), 3) => b.add_data_raw(oty(t), s, Allocation::with(*i, *f), *salt),
                (StateG::Amount(a, bl), _, _) if default && case.det => b.add_fungible_default_state_det(s, *a, blind(*bl)),
                (StateG::Amount(a, _), _, _) if default => b.add_fungible_default_state(s, *a),
                (StateG::Right, ..) => b.add_rights(n, s),
                (StateG::Amount(a, bl), ..) if case.det => b.add_fungible_state_det(n, s, *a, blind(*bl)),
                (StateG::Amount(a, _), ..) => b.add_fungible_state(n, s, *a),
                (StateG::Token(i, f, salt), ..) if case.det => {
                    b.add_data_det(n, s, RevealedData::with_salt(DataState::from(Allocation::with(*i, *f)), *salt as u128))
                }
                (StateG::Token(i, f, _), ..) => b.add_data(n, s, Allocation::with(*i, *f)),
                (StateG::Doc(id, salt), ..) if case.det => {
                    b.add_attachment_det(n, s, RevealedAttach::with_salt(attach_id(*id), MediaType::Any, *salt))
                }
                (StateG::Doc(id, _), ..) => b.add_attachment(n, s, AttachState { id: attach_id(*id), media_type: MediaType::Any }),
            })?
        }
    };
    match (res, expect_ok) {
        (Ok(nb), true) => {
            *m = next;
            Ok(nb)
        }
        (Err(_), false) => {
            cov.class("refused-call");
            Ok(old)
        }
        (Ok(_), false) => fail!("a wrong request was accepted: {call:?}"),
        (Err(e), true) => fail!("a correct request was refused with `{e}`: {call:?}"),
    }
}

fn check_trans(case: &TransCase, cov: &mut Cov) -> Res {
    let k = known(case.meta);
    let env = &k.env;
    let (iface, schema, iimpl, types) = (env.iface.clone(), env.schema.clone(), env.iimpl.clone(), env.types.clone());
    let mut m = Model {
        nonce: u64::MAX,
        globals: none!(),
        memo: None,
        owned: none!(),
        inputs: none!(),
        tags: none!(),
        blindings: none!(),
        salts: none!(),
    };
    let name = OPS[case.kind.saturating_sub(2) as usize];
    let res = if case.via_stock {
        m.tags.insert(ASSET, asset_tag(101));
        m.tags.insert(BONUS, asset_tag(102));
        let id = env.iface.iface_id();
        total("transition builder", || match case.kind {
            0 => k.stock.blank_builder(k.id, id).map_err(|e| e.to_string()),
            1 => k.stock.transition_builder(k.id, id, None::<strict_types::FieldName>).map_err(|e| e.to_string()),
            _ => k.stock.transition_builder(k.id, id, Some(fname(name))).map_err(|e| e.to_string()),
        })?
    } else {
        total("transition builder", || {
            match (case.kind, case.det) {
                (0, true) => Ok(TransitionBuilder::blank_transition_det(k.id, iface, schema, iimpl, types)),
                (0, false) => Ok(TransitionBuilder::blank_transition(k.id, iface, schema, iimpl, types)),
                (1, true) => TransitionBuilder::default_transition_det(k.id, iface, schema, iimpl, types),
                (1, false) => TransitionBuilder::default_transition(k.id, iface, schema, iimpl, types),
                (_, true) => TransitionBuilder::named_transition_det(k.id, iface, schema, iimpl, name, types),
                (_, false) => TransitionBuilder::named_transition(k.id, iface, schema, iimpl, name, types),
            }
            .map_err(|e| e.to_string())
        })?
    };
    let want_ty = match case.kind {
        0 => TransitionType::BLANK,
        1 | 2 => TransitionType::with(TRANSFER),
        3 => TransitionType::with(PAY),
        4 => TransitionType::with(RECORD),
        _ => {
            ensure!(res.is_err(), "a builder for an unknown operation");
            cov.class("unknown-operation");
            return Ok(());
        }
    };
    let mut b = res.map_err(|e| Fail::new(format!("no builder for a known operation: {e}")))?;
    if !case.via_stock {
        for (ty, name, salt) in [(ASSET, "asset", case.tags.0), (BONUS, "bonus", case.tags.1)] {
            if let Some(salt) = salt {
                b = b.add_asset_tag(name, asset_tag(salt)).map_err(|e| Fail::new(format!("tag refused: {e}")))?;
                m.tags.insert(ty, asset_tag(salt));
            }
        }
    }
    for call in &case.calls {
        b = apply(b, &mut m, case, call, cov)?;
    }
    // what the builder tells about itself
    ensure_eq!(b.transition_type(), want_ty, "transition type of the builder");
    ensure_eq!(b.has_inputs(), !m.inputs.is_empty(), "presence of inputs");
    for n in NAMES {
        let ty = type_of(n);
        ensure_eq!(b.assignments_type(&fname(n)), ty.map(oty), "type of {n}");
        ensure_eq!(b.asset_tag(n).ok(), ty.and_then(|t| m.tags.get(&t)).copied(), "asset tag of {n}");
    }
    for (n, ty) in GNAMES.iter().zip([Some(LOG), Some(NOTE), Some(SUPPLY), None, None, None]) {
        ensure_eq!(b.global_type(&fname(n)), ty.map(gty), "type of {n}");
    }
    if case.kind > 0 {
        let default = b.default_assignment().map_err(|e| Fail::new(format!("no default assignment: {e}")))?;
        ensure_eq!(default.as_str(), if case.kind == 4 { "right" } else { "asset" }, "default assignment");
    }
    let t = total("completing", || b.complete_transition())?.map_err(|e| Fail::new(format!("transition is not completed: {e}")))?;
    ensure_eq!(t.contract_id, k.id, "contract");
    ensure_eq!(t.transition_type, want_ty, "transition type");
    ensure_eq!(t.nonce, m.nonce, "nonce");
    ensure_eq!(
        t.inputs.iter().map(|i| i.prev_out).collect::<BTreeSet<_>>(),
        m.inputs.keys().copied().collect::<BTreeSet<_>>(),
        "inputs"
    );
    let globals: BTreeMap<u16, Vec<Vec<u8>>> =
        t.globals.iter().map(|(t, v)| (t.to_inner(), v.iter().map(|d| d.as_slice().to_vec()).collect())).collect();
    ensure_eq!(globals, m.globals, "global state");
    let meta: BTreeMap<MetaType, Vec<u8>> = t.metadata.iter().map(|(t, v)| (*t, v.as_slice().to_vec())).collect();
    ensure_eq!(meta, m.memo.iter().map(|v| (MetaType::with(META), ser(&Amount::from(*v)))).collect::<BTreeMap<_, _>>(), "metadata");
    for l in m.owned.values_mut() {
        l.sort();
    }
    ensure_eq!(assigned(&t.assignments), m.owned, "owned state");
    for (ty, a) in t.assignments.iter() {
        let ty = ty.to_inner();
        match a {
            TypedAssigns::Fungible(v) => {
                let mut outs = vec![];
                for a in v.iter() {
                    let s = a.as_revealed_state().expect("checked above");
                    ensure_eq!(Some(&s.tag), m.tags.get(&ty), "asset tag of {ty}");
                    outs.push(s.blinding);
                }
                let given = m.blindings.get(&ty).cloned().unwrap_or_default();
                if case.det {
                    let foreign = outs.iter().filter(|b| !given.contains(b)).count();
                    ensure!(foreign <= 1, "provided blinding factors are not used");
                }
                let distinct = outs.iter().map(|b| b.to_string()).collect::<BTreeSet<_>>().len();
                ensure_eq!(distinct, outs.len(), "different outputs are blinded by the same factor");
                let ins = m
                    .inputs
                    .iter()
                    .filter_map(|(o, s)| match s {
                        StateG::Amount(_, b) if o.ty == oty(ty) => Some(blind(*b)),
                        _ => None,
                    })
                    .collect::<Vec<_>>();
                if !ins.is_empty() {
                    ensure!(balanced(&ins, &outs), "blinding factors of the transition outputs do not balance its inputs");
                    cov.class("balanced");
                }
            }
            TypedAssigns::Structured(v) => {
                let salts = v.iter().map(|a| a.as_revealed_state().expect("checked above").salt).collect::<Vec<_>>();
                ensure_salts(salts, m.salts.get(&ty), case.det)?;
            }
            TypedAssigns::Attachment(v) => {
                let salts = v.iter().map(|a| a.as_revealed_state().expect("checked above").salt as u128).collect::<Vec<_>>();
                ensure_salts(salts, m.salts.get(&ty), case.det)?;
            }
            TypedAssigns::Declarative(_) => {}
        }
    }
    if m.owned.values().map(|v| v.len()).sum::<usize>() >= 2 && !m.inputs.is_empty() {
        cov.nontrivial();
    }
    cov.class_if(m.owned.values().any(|v| v.windows(2).any(|w| w[0].0 == w[1].0)), "same-seal");
    cov.class_if(m.owned.values().flatten().any(|v| !v.1), "concealed-seal");
    cov.class_if(m.memo.is_some(), "metadata");
    cov.class_if(case.via_stock, "by-stock");
    cov.class(if case.det { "deterministic" } else { "random" });
    cov.class(format!("kind{}", case.kind));
    Ok(())
}

/// The salts provided are all in use; others are possible only if random ones were requested.
fn ensure_salts(mut have: Vec<u128>, given: Option<&Vec<u128>>, exact: bool) -> Res {
    for s in given.into_iter().flatten() {
        let Some(at) = have.iter().position(|h| h == s) else { fail!("provided salt is not used") };
        have.swap_remove(at);
    }
    ensure!(!exact || have.is_empty(), "salts which were not provided");
    Ok(())
}

pub fn c28(ctx: &Ctx) {
    ctx.rule("transitions: at least one input and two owned states were put into the transition");
    ctx.check("transitions", 40000, 400000, trans_case, check_trans);
}
