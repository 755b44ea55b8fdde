//! Several wallets, several contracts and one chain: histories of issues,
//! payments, deliveries and chain events, with a model of what each wallet was
//! told. The model is derived from the raw operations only.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

use amplify::confinement::Confined;
use amplify::Wrapper;
use bp::seals::txout::{BlindSeal, CloseMethod, ExplicitSeal, TxPtr};
use bp::{Outpoint, Txid, Vout};
use commit_verify::Conceal;
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::vm::{WitnessOrd, XWitnessId};
use rgb::*;
use rgbinvoice::{Allocation, Amount, Beneficiary, ChainNet, InvoiceState, NonFungible, Pay2Vout, RgbInvoice, XChainNet};
use rgbstd::containers::{
    Batch, BuilderSeal, ClientBundle, Consignment, ConsignmentExt, Contract, Fascia, ToWitnessId, Transfer, TransitionInfo, ValidKit, WitnessBundle,
};
use rgbstd::containers::{ContentRef, Kit, SupplItem, SupplSub, Supplement, VelocityHint, SUPPL_ANNOT_VELOCITY};
use rgbstd::interface::{BuilderError, ContractBuilder};
use rgbstd::persistence::{MemIndex, MemStash, MemState, PersistedState, StashReadProvider, Stock};
use serde::{Deserialize, Serialize};
use strict_encoding::{StrictDeserialize, StrictSerialize};

use crate::build::*;
use crate::env::*;
use crate::frame::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};

pub const WALLETS: usize = 3;
const OUTS: usize = 2 + WALLETS;

// ---------------------------------------------------------------------------
// Generated histories

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum AmtG {
    All,
    Frac(u8),
    Over(u32),
    Zero,
}

/// Reasons for which a payment has to be refused.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Refuse {
    NoContract,
    NoIface,
    UnknownContract,
    UnknownIface,
    UnknownOperation,
    UnknownAssignment,
    Expired,
    NoState,
    File,
    VoutForBlinded,
    NoVout,
    NoOutput,
    WrongKind,
    WrongData,
    ForeignOutputs,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PayG {
    pub w: u8,
    pub to: u8,
    pub pick: u8,
    pub mask: u16,
    pub amount: AmtG,
    pub blinded: bool,
    pub opret: bool,
    pub to_opret: bool,
    pub named: bool,
    pub operation: u8,
    pub priority: Option<u64>,
    pub refuse: Option<Refuse>,
    pub slot: u8,
    pub seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PartG {
    pub to: u8,
    pub blinded: bool,
    pub same: bool,
    pub frac: u8,
    pub opret: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Issue { w: u8, env: u8, allocs: Vec<(u8, bool, bool, StateG)>, logs: Vec<u64>, seed: u64 },
    Pay(PayG),
    /// A hand-made transition splitting all the state of one contract on an output.
    Split {
        w: u8,
        pick: u8,
        mask: u16,
        parts: Vec<PartG>,
        logs: Vec<u64>,
        /// one transition for each of the outputs
        #[serde(default)]
        each: bool,
        seed: u64,
    },
    Record { w: u8, pick: u8, logs: Vec<u64>, to: u8, opret: bool, seed: u64 },
    Deliver {
        ix: u8,
        bytes: bool,
        third: bool,
        /// the sender hides what is not needed
        #[serde(default)]
        veil: Option<u64>,
    },
    Share { from: u8, to: u8, contract: u8 },
    Send { from: u8, to: u8, contract: u8, mask: u16 },
    Again { ix: u8, to: u8 },
    Mine { ix: u8, height: u8 },
    Unmine { ix: u8 },
    Drop { ix: u8 },
    Replace { ix: u8, seed: u64 },
    Sync { w: u8, after: u8, broken: u16 },
    Reload { w: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

/// Weights of kinds of steps.
#[derive(Clone, Copy, Debug)]
pub struct Weights {
    pub issue: u32,
    pub pay: u32,
    pub split: u32,
    pub record: u32,
    pub deliver: u32,
    pub share: u32,
    pub send: u32,
    pub again: u32,
    pub mine: u32,
    pub drop: u32,
    pub replace: u32,
    pub sync: u32,
    pub broken: f64,
    pub reload: u32,
    pub refuse: f64,
    pub veil: f64,
}

pub const EVEN: Weights = Weights {
    issue: 2,
    pay: 8,
    split: 2,
    record: 2,
    deliver: 8,
    share: 1,
    send: 2,
    again: 1,
    mine: 3,
    drop: 1,
    replace: 1,
    sync: 2,
    broken: 0.1,
    reload: 0,
    refuse: 0.03,
    veil: 0.3,
};

fn logs() -> impl Strategy<Value = Vec<u64>> { vec(0u64..100, 1..4) }

fn issue_g() -> impl Strategy<Value = Step> {
    let state = prop_oneof![
        2 => Just(StateG::Right),
        6 => (prop_oneof![4 => 1u64..1000, 1 => Just(1u64), 1 => 1u64..=(u64::MAX >> 8)], any::<u64>()).prop_map(|(a, b)| StateG::Amount(a, b)),
        3 => (0u32..4, 1u64..4, any::<u64>()).prop_map(|(i, f, s)| StateG::Token(i, f, s)),
    ];
    let alloc = (prop_oneof![3 => 0u8..3, 1 => 3u8..6], any::<bool>(), prop::bool::weighted(0.1), state);
    (0u8..3, 0u8..3, vec(alloc, 1..6), vec(0u64..100, 0..3), any::<u64>())
        .prop_map(|(w, env, allocs, logs, seed)| Step::Issue { w, env, allocs, logs, seed })
}

pub fn pay_g(refuse: f64) -> impl Strategy<Value = PayG> {
    let amount = prop_oneof![6 => any::<u8>().prop_map(AmtG::Frac), 3 => Just(AmtG::All), 1 => Just(AmtG::Zero)];
    let reason = prop_oneof![
        Just(Refuse::NoContract),
        Just(Refuse::NoIface),
        Just(Refuse::UnknownContract),
        Just(Refuse::UnknownIface),
        Just(Refuse::UnknownOperation),
        Just(Refuse::UnknownAssignment),
        Just(Refuse::Expired),
        Just(Refuse::NoState),
        Just(Refuse::File),
        Just(Refuse::VoutForBlinded),
        Just(Refuse::NoVout),
        Just(Refuse::NoOutput),
        Just(Refuse::WrongKind),
        Just(Refuse::WrongData),
        Just(Refuse::ForeignOutputs),
    ];
    (
        (0u8..3, 0u8..3, any::<u8>(), any::<u16>(), prop_oneof![30 => amount, 1 => (0u32..5).prop_map(AmtG::Over)]),
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
        (0u8..3, prop::option::weighted(0.4, u64b()), (prop::bool::weighted(refuse), reason).prop_map(|(r, x)| r.then_some(x))),
        (0u8..6, any::<u64>()),
    )
        .prop_map(|((w, to, pick, mask, amount), (blinded, opret, to_opret, named), (operation, priority, refuse), (slot, seed))| PayG {
            w,
            to,
            pick,
            mask,
            amount,
            blinded,
            opret,
            to_opret,
            named,
            operation,
            priority,
            refuse,
            slot,
            seed,
        })
}

pub fn step(x: Weights) -> BoxedStrategy<Step> {
    let part = (0u8..3, any::<bool>(), any::<bool>(), any::<u8>(), any::<bool>())
        .prop_map(|(to, blinded, same, frac, opret)| PartG { to, blinded, same, frac, opret });
    let list: Vec<(u32, BoxedStrategy<Step>)> = vec![
        (x.issue, issue_g().boxed()),
        (x.pay, pay_g(x.refuse).prop_map(Step::Pay).boxed()),
        (x.split, (0u8..3, any::<u8>(), any::<u16>(), vec(part, 1..4), prop_oneof![Just(vec![]), logs()], any::<bool>(), any::<u64>())
            .prop_map(|(w, pick, mask, parts, logs, each, seed)| Step::Split { w, pick, mask: if each { mask | mask >> 1 } else { mask }, parts, logs, each, seed }).boxed()),
        (x.record, (0u8..3, any::<u8>(), logs(), 0u8..3, any::<bool>(), any::<u64>())
            .prop_map(|(w, pick, logs, to, opret, seed)| Step::Record { w, pick, logs, to, opret, seed }).boxed()),
        (x.deliver, (any::<u8>(), any::<bool>(), prop::bool::weighted(0.2), prop::option::weighted(x.veil, any::<u64>()))
            .prop_map(|(ix, bytes, third, veil)| Step::Deliver { ix, bytes, third, veil }).boxed()),
        (x.share, (0u8..3, 0u8..3, any::<u8>()).prop_map(|(from, to, contract)| Step::Share { from, to, contract }).boxed()),
        (x.send, (0u8..3, 0u8..3, any::<u8>(), any::<u16>()).prop_map(|(from, to, contract, mask)| Step::Send { from, to, contract, mask }).boxed()),
        (x.again, (any::<u8>(), 0u8..3).prop_map(|(ix, to)| Step::Again { ix, to }).boxed()),
        (x.mine, prop_oneof![
            4 => (any::<u8>(), 1u8..8).prop_map(|(ix, height)| Step::Mine { ix, height }),
            1 => any::<u8>().prop_map(|ix| Step::Unmine { ix }),
        ].boxed()),
        (x.drop, any::<u8>().prop_map(|ix| Step::Drop { ix }).boxed()),
        (x.replace, (any::<u8>(), any::<u64>()).prop_map(|(ix, seed)| Step::Replace { ix, seed }).boxed()),
        (x.sync, (0u8..3, prop_oneof![3 => Just(0u8), 1 => 0u8..8], prop::bool::weighted(x.broken), any::<u16>())
            .prop_map(|(w, after, b, broken)| Step::Sync { w, after, broken: if b { broken } else { 0 } }).boxed()),
        (x.reload, (0u8..3).prop_map(|w| Step::Reload { w }).boxed()),
    ];
    proptest::strategy::Union::new_weighted(list.into_iter().filter(|x| x.0 > 0).collect())
    .boxed()
}

/// Histories start with an issue and a few payments, so that most of them are not trivial.
pub fn history(x: Weights, max: usize) -> BoxedStrategy<History> {
    (
        prop::bool::weighted(0.1),
        any::<bool>(),
        vec(issue_g(), 1..3),
        vec(step(x), (max / 3)..=max),
    )
        .prop_map(|(liquid, testnet, mut steps, rest)| {
            steps.extend(rest);
            History { liquid, testnet, steps }
        })
        .boxed()
}

/// Histories of a wallet which has several contracts on the same outputs, closed by both methods, and spends many of them.
pub fn rich(x: Weights, max: usize) -> BoxedStrategy<History> {
    (history(x, max), vec(issue_g(), 2..4), vec((pay_g(0.0), any::<u16>()), 1..3))
        .prop_map(|(mut h, issues, pays)| {
            let at = h.steps.iter().take_while(|s| matches!(s, Step::Issue { .. })).count();
            let Step::Issue { w: owner, .. } = h.steps[0] else { unreachable!("histories start with an issue") };
            let mut first = h.steps[..at].to_vec();
            first.extend(issues.into_iter().map(|mut s| {
                if let Step::Issue { w, allocs, seed, .. } = &mut s {
                    *w = owner;
                    for (n, a) in allocs.iter_mut().enumerate() {
                        a.0 %= 3;
                        a.1 = mix(*seed, n as u64) % 2 == 0;
                    }
                }
                s
            }));
            first.extend(pays.into_iter().map(|(mut p, m)| {
                p.w = owner;
                p.mask |= m;
                Step::Pay(p)
            }));
            first.extend(h.steps.drain(at..));
            h.steps = first;
            h
        })
        .boxed()
}

/// Histories with state sent at once to others by the issuer and those who received it.
pub fn busy(x: Weights, max: usize) -> BoxedStrategy<History> {
    let none = Weights { issue: 0, pay: 0, split: 0, record: 0, deliver: 0, share: 0, send: 0, again: 0, mine: 0, drop: 0, replace: 0, sync: 0, reload: 0, ..x };
    let spend = step(Weights { pay: 2, split: 3, record: 1, ..none });
    (history(x, max), vec((spend, step(Weights { deliver: 1, ..none }), prop::bool::weighted(0.6)), 1..4))
        .prop_map(|(mut h, list)| {
            let at = h.steps.iter().take_while(|s| matches!(s, Step::Issue { .. })).count();
            let Step::Issue { w: issuer, .. } = h.steps[0] else { unreachable!("histories start with an issue") };
            let mut first = h.steps[..at].to_vec();
            for (mut s, d, own) in list {
                if own {
                    match &mut s {
                        Step::Pay(p) => p.w = issuer,
                        Step::Split { w, .. } | Step::Record { w, .. } => *w = issuer,
                        _ => {}
                    }
                }
                first.push(s);
                first.push(d);
            }
            first.extend(h.steps.drain(at..));
            h.steps = first;
            h
        })
        .boxed()
}

// ---------------------------------------------------------------------------
// Model

pub fn envs() -> &'static [(Env, ValidKit)] {
    static ENVS: OnceLock<Vec<(Env, ValidKit)>> = OnceLock::new();
    ENVS.get_or_init(|| {
        [(0u8, 3u8), (1, 1), (2, 4)]
            .into_iter()
            .map(|(variant, log_limit)| {
                let mut e = Env::new(SchemaParams { log_limit, variant, meta: false });
                if variant == 2 {
                    // contracts of an interface which others don't implement
                    e.iface.name = strict_encoding::TypeName::from("OtherAsset");
                    e.iimpl.iface_id = e.iface.iface_id();
                }
                let k = e.valid_kit();
                (e, k)
            })
            .collect()
    })
}

pub type Witnesses = BTreeSet<Option<XWitnessId>>;

#[derive(Clone, Debug)]
pub struct GlobalM {
    pub value: Vec<u8>,
    /// type and nonce of the declaring transition
    pub op: Option<(u16, u64)>,
    pub witnesses: Witnesses,
}

/// What a wallet was told about a contract.
#[derive(Clone, Debug, Default)]
pub struct CModel {
    pub env: usize,
    pub allocs: BTreeMap<(Opout, XOutputSeal), (PersistedState, Witnesses)>,
    /// the last valid witness each allocation was learned with
    pub latest: BTreeMap<(Opout, XOutputSeal), XWitnessId>,
    /// all revealed seals, with or without a known state
    pub places: BTreeMap<XOutputSeal, BTreeSet<Opout>>,
    pub secrets: BTreeSet<(XChain<SecretSeal>, Opout)>,
    pub globals: BTreeMap<(u16, OpId, u16), GlobalM>,
    pub ops: BTreeMap<OpId, BTreeSet<BundleId>>,
    pub bundles: BTreeMap<BundleId, BTreeSet<XWitnessId>>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub contracts: BTreeMap<ContractId, CModel>,
    pub ords: BTreeMap<XWitnessId, WitnessOrd>,
    pub kits: BTreeSet<usize>,
    pub seals: Vec<XChain<GraphSeal>>,
}

pub fn persisted_of<S: ExposedState>(s: &S) -> PersistedState
where PersistedState: FromState<S> {
    PersistedState::from_state(s)
}

pub trait FromState<S> {
    fn from_state(s: &S) -> Self;
}
impl FromState<VoidState> for PersistedState {
    fn from_state(_: &VoidState) -> Self { PersistedState::Void }
}
impl FromState<RevealedValue> for PersistedState {
    fn from_state(s: &RevealedValue) -> Self { PersistedState::Amount(s.value.into(), s.blinding, s.tag) }
}
impl FromState<RevealedData> for PersistedState {
    fn from_state(s: &RevealedData) -> Self { PersistedState::Data(s.value.clone(), s.salt) }
}
impl FromState<RevealedAttach> for PersistedState {
    fn from_state(s: &RevealedAttach) -> Self { PersistedState::Attachment(s.file.clone(), s.salt) }
}

/// One assignment of an operation: position, seal (if revealed), its blinded form and the state (if revealed).
pub struct Item<Seal> {
    pub ty: u16,
    pub no: u16,
    pub seal: Option<XChain<Seal>>,
    pub secret: XChain<SecretSeal>,
    pub state: Option<PersistedState>,
}

pub fn items<Seal: ExposedSeal>(a: &Assignments<Seal>) -> Vec<Item<Seal>> {
    fn go<St: ExposedState, Seal: ExposedSeal>(ty: u16, v: &[Assign<St, Seal>], out: &mut Vec<Item<Seal>>)
    where PersistedState: FromState<St> {
        for (no, a) in v.iter().enumerate() {
            let (seal, secret) = match a {
                Assign::Revealed { seal, .. } | Assign::ConfidentialState { seal, .. } => (Some(*seal), seal.conceal()),
                Assign::Confidential { seal, .. } | Assign::ConfidentialSeal { seal, .. } => (None, *seal),
            };
            let state = match a {
                Assign::Revealed { state, .. } | Assign::ConfidentialSeal { state, .. } => Some(PersistedState::from_state(state)),
                _ => None,
            };
            out.push(Item { ty, no: no as u16, seal, secret, state });
        }
    }
    let mut out = vec![];
    for (ty, t) in a.iter() {
        let ty = ty.to_inner();
        match t {
            TypedAssigns::Declarative(v) => go(ty, v, &mut out),
            TypedAssigns::Fungible(v) => go(ty, v, &mut out),
            TypedAssigns::Structured(v) => go(ty, v, &mut out),
            TypedAssigns::Attachment(v) => go(ty, v, &mut out),
        }
    }
    out
}

/// Copy of a witness bundle with changed bundles.
pub fn remake(wb: &WitnessBundle, mut f: impl FnMut(&mut TransitionBundle)) -> WitnessBundle {
    let mut res: Option<WitnessBundle> = None;
    for (anchor, bundle) in wb.anchored_bundles() {
        let mut bundle = bundle.clone();
        f(&mut bundle);
        let cb = ClientBundle::new(anchor.mpc_proof, anchor.dbc_proof, bundle);
        res = Some(match res {
            None => WitnessBundle::with(wb.pub_witness.clone(), cb),
            Some(wb) => wb.into_double(cb).expect("different methods"),
        });
    }
    res.expect("at least one bundle")
}

/// Conceals the selected seals.
pub fn veil_seals<Seal: ExposedSeal>(a: &mut Assignments<Seal>, mut hide: impl FnMut(u16, u16) -> bool) {
    fn go<'a, St: ExposedState + 'a, Seal: ExposedSeal + 'a>(v: impl Iterator<Item = &'a mut Assign<St, Seal>>, mut hide: impl FnMut(u16) -> bool) {
        for (no, a) in v.enumerate() {
            *a = match a.clone() {
                Assign::Revealed { seal, state, lock } if hide(no as u16) => Assign::ConfidentialSeal { seal: seal.conceal(), state, lock },
                a => a,
            };
        }
    }
    for (ty, t) in a.keyed_values_mut() {
        let ty = ty.to_inner();
        match t {
            TypedAssigns::Declarative(v) => go(v.iter_mut(), |no| hide(ty, no)),
            TypedAssigns::Fungible(v) => go(v.iter_mut(), |no| hide(ty, no)),
            TypedAssigns::Structured(v) => go(v.iter_mut(), |no| hide(ty, no)),
            TypedAssigns::Attachment(v) => go(v.iter_mut(), |no| hide(ty, no)),
        }
    }
}

/// Conceals some of the seals which are not spent in the consignment and not kept.
/// Neither operations nor states can be concealed: such consignments are not valid.
pub fn veil<const TRANSFER: bool>(c: &mut Consignment<TRANSFER>, keep: &BTreeSet<Opout>, mask: u64) -> u32 {
    let mut hidden = 0u32;
    let spent = c.bundles.iter().flat_map(|b| b.known_transitions().flat_map(|t| t.inputs.iter().map(|i| i.prev_out)).collect::<Vec<_>>()).collect::<BTreeSet<_>>();
    let mut hide = |opid: OpId, ty: u16, no: u16| {
        let opout = Opout::new(opid, oty(ty), no);
        let n = u64::from_le_bytes(opid.to_byte_array()[..8].try_into().unwrap());
        let hide = !keep.contains(&opout) && !spent.contains(&opout) && mix(mask, n ^ (ty as u64) << 16 ^ no as u64) & 2 == 2;
        hidden += hide as u32;
        hide
    };
    let genesis_id = c.genesis.id();
    veil_seals(&mut c.genesis.assignments, |ty, no| hide(genesis_id, ty, no));
    let bundles = c
        .bundles
        .iter()
        .map(|wb| {
            remake(wb, |b| {
                let mut known = b.known_transitions.clone().release();
                for (opid, t) in known.iter_mut() {
                    veil_seals(&mut t.assignments, |ty, no| hide(*opid, ty, no));
                }
                b.known_transitions = Confined::from_checked(known);
            })
        })
        .collect::<BTreeSet<_>>();
    c.bundles = Confined::from_checked(bundles);
    hidden
}

/// Output defined by a seal of an operation committed by the given transaction.
pub fn place(seal: XChain<GraphSeal>, witness: XWitnessId) -> XOutputSeal {
    let wtx: Txid = *witness.as_reduced_unsafe();
    seal.map(|s| ExplicitSeal {
        method: s.method,
        txid: match s.txid {
            TxPtr::WitnessTx => wtx,
            TxPtr::Txid(t) => t,
        },
        vout: s.vout,
    })
}

pub fn genesis_place(seal: XChain<GenesisSeal>) -> XOutputSeal {
    seal.map(|s| ExplicitSeal { method: s.method, txid: s.txid, vout: s.vout })
}

pub fn outpoint(seal: XOutputSeal) -> Outpoint {
    let s = *seal.as_reduced_unsafe();
    Outpoint::new(s.txid, s.vout)
}

impl CModel {
    pub fn genesis(&mut self, g: &Genesis) {
        let opid = g.id();
        for i in items(&g.assignments) {
            let opout = Opout::new(opid, oty(i.ty), i.no);
            match i.seal {
                None => {
                    self.secrets.insert((i.secret, opout));
                }
                Some(seal) => {
                    let out = genesis_place(seal);
                    self.places.entry(out).or_default().insert(opout);
                    if let Some(state) = i.state {
                        self.allocs.entry((opout, out)).or_insert((state, bset![])).1.insert(None);
                    }
                }
            }
        }
        for (ty, values) in g.globals.iter() {
            for (n, v) in values.iter().enumerate() {
                self.globals
                    .entry((ty.to_inner(), opid, n as u16))
                    .or_insert(GlobalM { value: v.as_slice().to_vec(), op: None, witnesses: bset![] })
                    .witnesses
                    .insert(None);
            }
        }
    }

    pub fn transition(&mut self, bundle_id: BundleId, t: &Transition, witness: XWitnessId, valid: bool, reveal: &[XChain<GraphSeal>]) {
        let opid = t.id();
        self.ops.entry(opid).or_default().insert(bundle_id);
        self.bundles.entry(bundle_id).or_default().insert(witness);
        for i in items(&t.assignments) {
            let opout = Opout::new(opid, oty(i.ty), i.no);
            let seal = i.seal.or_else(|| reveal.iter().copied().find(|s| s.conceal() == i.secret));
            match seal {
                None => {
                    self.secrets.insert((i.secret, opout));
                }
                Some(seal) => {
                    let out = place(seal, witness);
                    self.places.entry(out).or_default().insert(opout);
                    if let Some(state) = i.state {
                        self.allocs.entry((opout, out)).or_insert((state, bset![])).1.insert(Some(witness));
                        if valid || !self.latest.contains_key(&(opout, out)) {
                            self.latest.insert((opout, out), witness);
                        }
                    }
                }
            }
        }
        for (ty, values) in t.globals.iter() {
            for (n, v) in values.iter().enumerate() {
                self.globals
                    .entry((ty.to_inner(), opid, n as u16))
                    .or_insert(GlobalM {
                        value: v.as_slice().to_vec(),
                        op: Some((t.transition_type.to_inner(), t.nonce)),
                        witnesses: bset![],
                    })
                    .witnesses
                    .insert(Some(witness));
            }
        }
    }
}

impl Model {
    pub fn valid(&self, w: &Option<XWitnessId>) -> bool {
        match w {
            None => true,
            Some(id) => !matches!(self.ords.get(id), None | Some(WitnessOrd::Archived)),
        }
    }

    /// Allocations which have to be reported, including those which were last
    /// learned with a transaction which is not valid anymore (see known findings).
    pub fn full(&self, id: ContractId) -> BTreeMap<(Opout, XOutputSeal), (PersistedState, Witnesses)> {
        let Some(c) = self.contracts.get(&id) else { return bmap! {} };
        c.allocs
            .iter()
            .filter_map(|(k, (s, w))| {
                let w = w.iter().filter(|w| self.valid(w)).copied().collect::<BTreeSet<_>>();
                (!w.is_empty()).then(|| (*k, (s.clone(), w)))
            })
            .collect()
    }

    pub fn view(&self, id: ContractId) -> BTreeMap<(Opout, XOutputSeal), (PersistedState, Witnesses)> {
        let mut all = self.full(id);
        all.retain(|k, (_, ws)| self.contracts[&id].latest.get(k).map(|w| ws.contains(&Some(*w))).unwrap_or(true));
        all
    }

    /// Global state in the consensus order, without applying limits.
    pub fn globals(&self, id: ContractId, ty: u16) -> Vec<Vec<u8>> {
        let Some(c) = self.contracts.get(&id) else { return vec![] };
        let mut list = vec![];
        for ((t, opid, no), g) in &c.globals {
            if *t != ty {
                continue;
            }
            let ord = g
                .witnesses
                .iter()
                .filter_map(|w| match w {
                    None => Some((0u8, 0u32)),
                    Some(w) => match self.ords.get(w)? {
                        WitnessOrd::Mined(pos) => Some((1, pos.height().get())),
                        WitnessOrd::Tentative => Some((2, 0)),
                        WitnessOrd::Archived => None,
                    },
                })
                .min();
            if let Some(ord) = ord {
                list.push((ord, g.op, *opid, *no, g.value.clone()));
            }
        }
        list.sort();
        list.into_iter().map(|x| x.4).collect()
    }
}

// ---------------------------------------------------------------------------
// World

pub struct Wallet {
    pub stock: Stock,
    pub m: Model,
}

pub struct TxRec {
    pub id: XWitnessId,
    pub inputs: Vec<Outpoint>,
    pub infos: Vec<TransitionInfo>,
    pub owner: usize,
}

#[derive(Clone, Debug, Default)]
pub struct OpRec {
    pub deps: BTreeSet<OpId>,
    pub txs: BTreeSet<XWitnessId>,
}

#[derive(Clone, Debug)]
pub struct Delivery {
    pub from: usize,
    pub to: usize,
    pub contract: ContractId,
    pub secret: Option<XChain<SecretSeal>>,
    pub seals: BTreeSet<XOutputSeal>,
    pub expect: Vec<(Opout, XOutputSeal, PersistedState)>,
    pub ops: BTreeSet<OpId>,
    pub witness: XWitnessId,
    pub done: bool,
}

/// What is asserted while running histories.
#[derive(Clone, Copy, Debug, Default)]
pub struct Flags {
    /// the exact content of composed payments
    pub compose: bool,
    /// arrival of deliveries
    pub arrive: bool,
    /// repeated composition gives the same batch
    pub repeat: bool,
    /// keeps the stock as it was before the last own transaction
    pub keep: bool,
    /// contracts are annotated with hints for change
    pub hints: bool,
}

pub struct World {
    pub layer1: Layer1,
    pub testnet: bool,
    pub chain: Chain,
    pub wallets: Vec<Wallet>,
    pub contracts: Vec<(ContractId, usize)>,
    pub txs: Vec<TxRec>,
    pub ops: BTreeMap<OpId, OpRec>,
    pub owners: BTreeMap<Outpoint, usize>,
    pub secrets: BTreeMap<XChain<SecretSeal>, (usize, XChain<GraphSeal>)>,
    pub deliveries: Vec<Delivery>,
    /// all the consignments ever made, in the binary form
    pub sent: Vec<(bool, Vec<u8>)>,
    /// all the composed payments and prepared transactions
    pub batches: Vec<Batch>,
    pub fascias: Vec<Fascia>,
    pub flags: Flags,
    pub touched: BTreeSet<usize>,
    pub kept: Option<(Stock, Fascia)>,
    pub stats: BTreeMap<&'static str, u32>,
}

/// A supplement with hints for some types of the owned state.
fn hint_suppl(id: ContractId, n: u64) -> Supplement {
    let mut s = Supplement::new(ContentRef::Genesis(id), Identity::default());
    s.timestamp = 1_600_000_000 + (n % 1000) as i64;
    let hints = [VelocityHint::Unspecified, VelocityHint::Seldom, VelocityHint::Episodic, VelocityHint::Regular, VelocityHint::Frequent, VelocityHint::HighFrequency];
    for (ty, _) in &OWNED {
        let k = mix(n, *ty as u64);
        if k % 4 != 0 {
            s.annotate(SupplSub::Assignment, SupplItem::TypeNo(*ty), SUPPL_ANNOT_VELOCITY, &hints[k as usize / 4 % 6]).expect("small annotation");
        }
        // hints of other subjects
        s.annotate(SupplSub::Global, SupplItem::TypeNo(*ty), SUPPL_ANNOT_VELOCITY, &hints[k as usize / 24 % 6]).expect("small annotation");
    }
    s.annotate_default(SupplSub::Assignment, SUPPL_ANNOT_VELOCITY, &hints[n as usize / 24 % 6]).expect("small annotation");
    s
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn cid_num(id: ContractId) -> u64 {
    let b: [u8; 32] = id.to_byte_array();
    u64::from_le_bytes(b[..8].try_into().unwrap())
}

pub fn to_bytes(v: &impl StrictSerialize) -> Vec<u8> {
    v.to_strict_serialized::<{ u32::MAX as usize }>().expect("serializable").release()
}
pub fn from_bytes<T: StrictDeserialize>(v: Vec<u8>) -> Result<T, String> {
    T::from_strict_serialized::<{ u32::MAX as usize }>(Confined::try_from(v).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}

pub fn clone_stock(stock: &Stock) -> Res<Stock> {
    let stash = from_bytes::<MemStash>(to_bytes(stock.as_stash_provider())).map_err(|e| Fail::new(format!("stored stash is not readable: {e}")))?;
    let state = from_bytes::<MemState>(to_bytes(stock.as_state_provider())).map_err(|e| Fail::new(format!("stored state is not readable: {e}")))?;
    let index = from_bytes::<MemIndex>(to_bytes(stock.as_index_provider())).map_err(|e| Fail::new(format!("stored index is not readable: {e}")))?;
    Ok(Stock::with(stash, state, index))
}

pub fn amount_of(s: &PersistedState) -> Option<u64> {
    match s {
        PersistedState::Amount(a, _, _) => Some(a.value()),
        _ => None,
    }
}

/// Meaning of a state without blinding.
pub fn meaning(s: &PersistedState) -> Val {
    match s {
        PersistedState::Void => Val::Right,
        PersistedState::Amount(a, _, _) => Val::Amount(a.value()),
        PersistedState::Data(d, _) => Val::Data(d.as_slice().to_vec()),
        PersistedState::Attachment(a, _) => Val::Attach(a.id),
    }
}

pub fn commitment(s: &PersistedState) -> Option<Vec<u8>> {
    match s {
        PersistedState::Amount(a, b, tag) => {
            Some(strict(&RevealedValue::with_blinding(FungibleState::from(*a), *b, *tag).conceal().commitment))
        }
        _ => None,
    }
}

fn balanced(ins: &[Vec<u8>], outs: &[Vec<u8>]) -> bool {
    let parse = |l: &[Vec<u8>]| l.iter().map(|b| secp256k1_zkp::PedersenCommitment::from_slice(b).expect("commitment")).collect::<Vec<_>>();
    secp256k1_zkp::verify_commitments_sum_to_equal(secp256k1_zkp::SECP256K1, &parse(ins), &parse(outs))
}

impl World {
    pub fn new(h: &History, flags: Flags) -> World {
        World {
            layer1: if h.liquid { Layer1::Liquid } else { Layer1::Bitcoin },
            testnet: h.testnet,
            chain: Chain::default(),
            wallets: (0..WALLETS).map(|_| Wallet { stock: Stock::in_memory(), m: Model::default() }).collect(),
            contracts: vec![],
            txs: vec![],
            ops: bmap! {},
            owners: bmap! {},
            secrets: bmap! {},
            deliveries: vec![],
            sent: vec![],
            batches: vec![],
            fascias: vec![],
            flags,
            touched: bset![],
            kept: None,
            stats: bmap! {},
        }
    }

    pub fn count(&mut self, what: &'static str) { *self.stats.entry(what).or_default() += 1; }

    pub fn chain_net(&self) -> ChainNet {
        match (self.layer1, self.testnet) {
            (Layer1::Bitcoin, true) => ChainNet::BitcoinTestnet,
            (Layer1::Bitcoin, false) => ChainNet::BitcoinMainnet,
            (Layer1::Liquid, true) => ChainNet::LiquidTestnet,
            (Layer1::Liquid, false) => ChainNet::LiquidMainnet,
        }
    }

    pub fn alive(&self, id: XWitnessId) -> bool { !matches!(self.chain.ord(id), None | Some(WitnessOrd::Archived)) }

    pub fn is_spent(&self, o: Outpoint) -> bool { self.txs.iter().any(|t| t.inputs.contains(&o) && self.alive(t.id)) }

    pub fn op_ok(&self, op: OpId) -> bool {
        match self.ops.get(&op) {
            None => true,
            Some(r) => r.txs.iter().any(|t| self.alive(*t)) && r.deps.iter().all(|d| self.op_ok(*d)),
        }
    }

    /// An unspent output of the wallet's own, made from nowhere.
    pub fn fund(&mut self, w: usize, slot: u8) -> Outpoint {
        for gen in 0u64.. {
            let n = 0x1000_0000 + ((w as u64) << 16) + ((slot as u64 / 2) << 8) + gen;
            let o = Outpoint::new(txid(n), (slot % 2) as u32);
            if !self.is_spent(o) {
                self.owners.insert(o, w);
                return o;
            }
        }
        unreachable!()
    }

    pub fn spendable(&self, w: usize) -> Vec<(ContractId, Opout, XOutputSeal, PersistedState)> {
        let mut out = vec![];
        for id in self.wallets[w].m.contracts.keys() {
            for ((opout, seal), (state, _)) in self.wallets[w].m.view(*id) {
                let o = outpoint(seal);
                if self.owners.get(&o) == Some(&w) && !self.is_spent(o) && self.outpoint_alive(o) && self.op_ok(opout.op) {
                    out.push((*id, opout, seal, state));
                }
            }
        }
        out
    }

    /// The transaction of the output is not archived.
    pub fn outpoint_alive(&self, o: Outpoint) -> bool {
        match self.txs.iter().find(|t| *t.id.as_reduced_unsafe() == o.txid) {
            None => true,
            Some(t) => self.alive(t.id),
        }
    }

    // -- learning

    /// The wallet was given these statuses.
    fn learn_ord(&mut self, w: usize, id: XWitnessId) {
        let ord = self.chain.ord(id).expect("known transaction");
        self.wallets[w].m.ords.insert(id, ord);
    }

    pub fn learn_consignment(&mut self, w: usize, genesis: &Genesis, env: usize, bundles: &[(XWitnessId, TransitionBundle, Option<XChain<SecretSeal>>)]) {
        let id = genesis.contract_id();
        let seals = self.wallets[w].m.seals.clone();
        let ords = bundles.iter().map(|(id, ..)| (*id, self.alive(*id))).collect::<BTreeMap<_, _>>();
        let valid = |id: XWitnessId| ords[&id];
        let c = self.wallets[w].m.contracts.entry(id).or_default();
        c.env = env;
        c.genesis(genesis);
        for (witness, bundle, terminal) in bundles {
            let reveal = seals.iter().copied().filter(|s| Some(s.conceal()) == *terminal).collect::<Vec<_>>();
            for t in bundle.known_transitions.values() {
                c.transition(bundle.bundle_id(), t, *witness, valid(*witness), &reveal);
            }
        }
        for (witness, _, _) in bundles {
            self.learn_ord(w, *witness);
        }
        self.touched.insert(w);
    }

    pub fn consignment_bundles(c: &impl ConsignmentExt, terminals: &BTreeMap<BundleId, XChain<SecretSeal>>) -> Vec<(XWitnessId, TransitionBundle, Option<XChain<SecretSeal>>)> {
        let mut out = vec![];
        for wb in c.bundled_witnesses() {
            let id = wb.pub_witness.to_witness_id();
            for b in wb.anchored_bundles.bundles() {
                out.push((id, b.clone(), terminals.get(&b.bundle_id()).copied()));
            }
        }
        out
    }

    pub fn env_of(&self, id: ContractId) -> usize { self.contracts.iter().find(|(c, _)| *c == id).map(|(_, e)| *e).unwrap_or(0) }

    fn log_limit(&self, id: ContractId) -> usize { envs()[self.env_of(id)].0.schema.global_types[&gty(LOG)].max_items.into_u32() as usize }

    pub fn register_tx(&mut self, w: usize, packed: &Packed, infos: Vec<TransitionInfo>) -> XWitnessId {
        let id = self.chain.add(XChain::with(self.layer1, packed.tx.clone()), WitnessOrd::Tentative);
        assert_eq!(id, packed.witness_id);
        for info in &infos {
            let r = self.ops.entry(info.transition.id()).or_default();
            r.txs.insert(id);
            r.deps.extend(info.transition.inputs.iter().map(|i| i.prev_out.op));
        }
        let txid = packed.tx.txid();
        for v in 0..3u32 {
            self.owners.insert(Outpoint::new(txid, v), w);
        }
        for i in 0..WALLETS {
            self.owners.insert(Outpoint::new(txid, 3 + i as u32), i);
        }
        let inputs = packed.tx.inputs.iter().map(|i| i.prev_output).collect();
        self.txs.push(TxRec { id, inputs, infos, owner: w });
        id
    }

    /// Makes the transaction and records it in the wallet.
    pub fn commit(&mut self, w: usize, infos: Vec<TransitionInfo>, seed: u64) -> Res<XWitnessId> {
        let packed = pack(self.layer1, infos.clone(), OUTS, seed, &[], &[]);
        self.commit_packed(w, packed, infos)
    }

    pub fn commit_packed(&mut self, w: usize, packed: Packed, infos: Vec<TransitionInfo>) -> Res<XWitnessId> {
        let id = self.register_tx(w, &packed, infos.clone());
        let fascia = packed.fascia.clone();
        self.fascias.push(fascia.clone());
        if self.flags.keep {
            self.kept = Some((clone_stock(&self.wallets[w].stock)?, fascia.clone()));
        }
        let World { wallets, chain, .. } = self;
        total("consuming own transaction", || wallets[w].stock.consume_fascia(fascia, &*chain))?
            .map_err(|e| Fail::new(format!("own transaction was not accepted: {e}")))?;
        self.learn_fascia(w, &packed);
        self.add_deliveries(w, &packed, id);
        Ok(id)
    }

    pub fn learn_fascia(&mut self, w: usize, packed: &Packed) {
        let valid = self.alive(packed.witness_id);
        for (cid, dicho) in packed.fascia.bundles.iter() {
            for b in dicho.iter() {
                let c = self.wallets[w].m.contracts.entry(*cid).or_default();
                for t in b.known_transitions.values() {
                    c.transition(b.bundle_id(), t, packed.witness_id, valid, &[]);
                }
            }
        }
        self.learn_ord(w, packed.witness_id);
        self.touched.insert(w);
    }

    fn add_deliveries(&mut self, w: usize, packed: &Packed, id: XWitnessId) {
        let mut map: BTreeMap<(usize, ContractId, Option<XChain<SecretSeal>>), Delivery> = bmap! {};
        for (cid, dicho) in packed.fascia.bundles.iter() {
            for b in dicho.iter() {
                for t in b.known_transitions.values() {
                    for i in items(&t.assignments) {
                        let (to, seal, secret) = match i.seal {
                            Some(seal) => {
                                let p = place(seal, id);
                                let Some(to) = self.owners.get(&outpoint(p)) else { continue };
                                if *to == w {
                                    continue;
                                }
                                (*to, p, None)
                            }
                            None => {
                                let Some((to, seal)) = self.secrets.get(&i.secret) else { continue };
                                (*to, place(*seal, id), Some(i.secret))
                            }
                        };
                        let opout = Opout::new(t.id(), oty(i.ty), i.no);
                        let d = map.entry((to, *cid, secret)).or_insert(Delivery {
                            from: w,
                            to,
                            contract: *cid,
                            secret,
                            seals: bset![],
                            expect: vec![],
                            ops: bset![],
                            witness: id,
                            done: false,
                        });
                        if secret.is_none() {
                            d.seals.insert(seal);
                        }
                        d.ops.insert(t.id());
                        d.expect.push((opout, seal, i.state.expect("own operations are revealed")));
                    }
                }
            }
        }
        self.deliveries.extend(map.into_values());
    }

    // -- steps

    pub fn step(&mut self, s: &Step) -> Res {
        self.touched.clear();
        match s {
            Step::Issue { w, env, allocs, logs, seed } => self.issue(*w as usize % WALLETS, *env as usize, allocs, logs, *seed),
            Step::Pay(p) => self.pay(p),
            Step::Split { w, pick, mask, parts, logs, each, seed } => self.split(*w as usize % WALLETS, *pick, *mask, parts, logs, *each, *seed),
            Step::Record { w, pick, logs, to, opret, seed } => self.record(*w as usize % WALLETS, *pick, logs, *to as usize % WALLETS, *opret, *seed),
            Step::Deliver { ix, bytes, third, veil } => {
                // undelivered ones first
                let mut list = (0..self.deliveries.len()).filter(|i| !self.deliveries[*i].done).collect::<Vec<_>>();
                if list.is_empty() {
                    list = (0..self.deliveries.len()).collect();
                }
                if list.is_empty() {
                    return Ok(());
                }
                self.deliver(list[*ix as usize % list.len()], *bytes, *third, *veil)
            }
            Step::Share { from, to, contract } => self.share(*from as usize % WALLETS, *to as usize % WALLETS, *contract),
            Step::Send { from, to, contract, mask } => self.send(*from as usize % WALLETS, *to as usize % WALLETS, *contract, *mask),
            Step::Again { ix, to } => self.again(*ix, *to as usize % WALLETS),
            Step::Mine { ix, height } => {
                self.mine(*ix, *height as u32);
                Ok(())
            }
            Step::Unmine { ix } => {
                if let Some(t) = self.pick_tx(*ix) {
                    let id = self.txs[t].id;
                    if matches!(self.chain.ord(id), Some(WitnessOrd::Mined(_))) {
                        for d in self.descendants(id) {
                            if self.alive(d) {
                                self.chain.set(d, WitnessOrd::Tentative);
                            }
                        }
                        self.count("unmined");
                    }
                }
                Ok(())
            }
            Step::Drop { ix } => {
                if let Some(t) = self.pick_tx(*ix) {
                    let id = self.txs[t].id;
                    for d in self.descendants(id) {
                        self.chain.set(d, WitnessOrd::Archived);
                    }
                    self.count("dropped");
                }
                Ok(())
            }
            Step::Replace { ix, seed } => self.replace(*ix, *seed),
            Step::Sync { w, after, broken } => self.sync(*w as usize % WALLETS, *after as u32, *broken),
            Step::Reload { w } => {
                let w = *w as usize % WALLETS;
                self.wallets[w].stock = total("reload", || clone_stock(&self.wallets[w].stock))??;
                self.touched.insert(w);
                self.count("reloaded");
                Ok(())
            }
        }
    }

    fn pick_tx(&self, ix: u8) -> Option<usize> {
        if self.txs.is_empty() {
            return None;
        }
        // recent transactions are more interesting
        Some(self.txs.len() - 1 - (ix as usize % self.txs.len()))
    }

    /// The transaction and all which spend it.
    pub fn descendants(&self, id: XWitnessId) -> Vec<XWitnessId> {
        let mut out = vec![id];
        let mut n = 0;
        while n < out.len() {
            let txid = *out[n].as_reduced_unsafe();
            for t in &self.txs {
                if t.inputs.iter().any(|i| i.txid == txid) && !out.contains(&t.id) {
                    out.push(t.id);
                }
            }
            n += 1;
        }
        out
    }

    fn mine(&mut self, ix: u8, height: u32) {
        let Some(t) = self.pick_tx(ix) else { return };
        let mut h = height;
        let rec = &self.txs[t];
        for i in &rec.inputs {
            if let Some(p) = self.txs.iter().find(|p| *p.id.as_reduced_unsafe() == i.txid) {
                match self.chain.ord(p.id) {
                    Some(WitnessOrd::Mined(pos)) => h = h.max(pos.height().get()),
                    _ => return,
                }
            }
            if self.txs.iter().any(|o| o.id != rec.id && o.inputs.contains(i) && self.alive(o.id)) {
                return;
            }
        }
        // children may be not mined below
        let id = rec.id;
        let was = self.chain.ord(id).unwrap();
        for d in self.descendants(id).into_iter().skip(1) {
            if let Some(WitnessOrd::Mined(pos)) = self.chain.ord(d) {
                h = h.min(pos.height().get());
            }
        }
        self.chain.set(id, mined(self.layer1, h));
        self.count(match was {
            WitnessOrd::Archived => "mined-again",
            WitnessOrd::Mined(_) => "mined-elsewhere",
            WitnessOrd::Tentative => "mined",
        });
    }

    fn replace(&mut self, ix: u8, seed: u64) -> Res {
        let Some(t) = self.pick_tx(ix) else { return Ok(()) };
        let id = self.txs[t].id;
        if self.chain.ord(id) != Some(WitnessOrd::Tentative) || self.descendants(id).iter().skip(1).any(|d| self.alive(*d)) {
            return Ok(());
        }
        let w = self.txs[t].owner;
        let infos = self.txs[t].infos.clone();
        let packed = pack(self.layer1, infos.clone(), OUTS, mix(seed, 77), &[], &[]);
        if self.chain.ord(packed.witness_id).is_some() {
            return Ok(());
        }
        self.chain.set(id, WitnessOrd::Archived);
        self.commit_packed(w, packed, infos)?;
        self.count("replaced");
        Ok(())
    }

    pub fn sync(&mut self, w: usize, after: u32, broken: u16) -> Res {
        let ids = self.wallets[w].m.ords.keys().copied().collect::<Vec<_>>();
        self.chain.broken = ids.iter().enumerate().filter(|(n, _)| broken >> (n % 16) & 1 == 1).map(|(_, id)| *id).collect();
        let World { wallets, chain, .. } = self;
        let res = total("updating witnesses", || wallets[w].stock.update_witnesses(&*chain, after))?;
        let broken = std::mem::take(&mut self.chain.broken);
        let res = res.map_err(|e| Fail::new(format!("witnesses were not updated: {e}")))?;
        let mut failed = bset![];
        let mut succeeded = 0;
        for id in ids {
            let ord = self.wallets[w].m.ords.get_mut(&id).unwrap();
            if matches!(ord, WitnessOrd::Mined(pos) if pos.height().get() < after) {
                continue;
            }
            if broken.contains(&id) {
                failed.insert(id);
            } else {
                *ord = self.chain.ord(id).unwrap();
                succeeded += 1;
            }
        }
        ensure_eq!(res.failed.keys().copied().collect::<BTreeSet<_>>(), failed, "witnesses reported as failed to update");
        ensure_eq!(res.succeeded, succeeded, "number of witnesses reported as updated");
        self.touched.insert(w);
        self.count("synced");
        if !failed.is_empty() {
            self.count("resolver-failed");
        }
        Ok(())
    }

    fn issue(&mut self, w: usize, env: usize, allocs: &[(u8, bool, bool, StateG)], logs: &[u64], seed: u64) -> Res {
        let env = env % envs().len();
        if self.contracts.len() >= 4 {
            return Ok(());
        }
        let (e, kit) = &envs()[env];
        if self.wallets[w].m.kits.insert(env) {
            total("importing kit", || self.wallets[w].stock.import_kit(kit.clone()))?
                .map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
        }
        let tags = [(ASSET, asset_tag(mix(seed, 1))), (BONUS, asset_tag(mix(seed, 2)))];
        let mut b = ContractBuilder::deterministic(Identity::default(), e.iface.clone(), e.schema.clone(), e.iimpl.clone(), e.types.clone(), e.scripts.clone());
        let bad = |e: BuilderError| Fail::new(format!("issue refused: {e}"));
        if !self.testnet {
            b = b.set_mainnet();
        }
        if self.layer1 == Layer1::Liquid {
            b = b.add_layer1(AltLayer1::Liquid).map_err(bad)?;
        }
        b = b.add_asset_tag("asset", tags[0].1).map_err(bad)?.add_asset_tag("bonus", tags[1].1).map_err(bad)?;
        b = b.add_global_state("spec", spec("TEST", (seed % 9) as u8)).map_err(bad)?;
        for l in logs.iter().take(1) {
            b = b.add_global_state("log", Amount::from(*l)).map_err(bad)?;
        }
        for l in logs {
            b = b.add_global_state("note", note(*l)).map_err(bad)?;
        }
        for (n, (slot, opret, concealed, state)) in allocs.iter().enumerate() {
            let ty = state.natural();
            // rights live on their own outputs more often
            let slot = if ty == RIGHT && slot % 4 != 0 { 6 + slot % 2 } else { *slot };
            let o = self.fund(w, slot);
            let method = if *opret { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
            let seal: XChain<GenesisSeal> = XChain::with(self.layer1, BlindSeal::with_blinding(method, o.txid, o.vout, mix(seed, 100 + n as u64)));
            let seal = if *concealed { BuilderSeal::Concealed(seal.conceal()) } else { BuilderSeal::Revealed(seal) };
            let tag = tags.iter().find(|t| t.0 == ty).map(|t| t.1).unwrap_or(tags[0].1);
            let state = match state {
                StateG::Amount(a, b) => StateG::Amount(*a, mix(mix(seed, 200 + n as u64), *b)),
                s => s.clone(),
            };
            b = b.add_owned_state_det(owned_name(ty), seal, state.persisted(tag)).map_err(bad)?;
        }
        let contract = total("issue", || b.issue_contract_det(1_700_000_000 + (seed % 1000) as i64))?.map_err(|e| Fail::new(format!("correct contract was not issued: {e}")))?;
        let id = contract.genesis.contract_id();
        if self.contracts.iter().any(|c| c.0 == id) {
            return Ok(());
        }
        self.sent.push((false, to_bytes(&*contract)));
        let genesis = contract.genesis.clone();
        let World { wallets, chain, .. } = self;
        total("importing own contract", || wallets[w].stock.import_contract(contract, &*chain))?
            .map_err(|e| Fail::new(format!("issued contract was not imported: {e}")))?;
        self.contracts.push((id, env));
        self.learn_consignment(w, &genesis, env, &[]);
        if self.flags.hints {
            let mut kit = Kit::default();
            for n in 0..mix(seed, 300) % 3 {
                kit.supplements.push(hint_suppl(id, mix(seed, 301 + n))).expect("few supplements");
            }
            let kit = kit.validate().map_err(|_| Fail::new("kit is not valid"))?;
            total("importing kit", || self.wallets[w].stock.import_kit(kit))?.map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
        }
        self.count("issued");
        Ok(())
    }

    /// A seal of the receiver which the payer does not know.
    fn blinded(&mut self, to: usize, slot: u8, opret: bool, seed: u64) -> Res<XChain<GraphSeal>> {
        let o = self.fund(to, slot);
        let method = if opret { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
        let seal: XChain<GraphSeal> = XChain::with(self.layer1, BlindSeal::with_blinding(method, o.txid, o.vout, seed));
        total("storing seal", || self.wallets[to].stock.store_secret_seal(seal))?.map_err(|e| Fail::new(format!("seal was not stored: {e}")))?;
        self.wallets[to].m.seals.push(seal);
        self.secrets.insert(seal.conceal(), (to, seal));
        Ok(seal)
    }

    /// Chooses outputs: the one of the picked state and some others.
    fn select(&self, w: usize, pick: u8, mask: u16, what: impl Fn(&(ContractId, Opout, XOutputSeal, PersistedState)) -> bool) -> Option<((ContractId, Opout, XOutputSeal, PersistedState), BTreeSet<Outpoint>)> {
        let all = self.spendable(w);
        let list = all.iter().filter(|x| what(x)).collect::<Vec<_>>();
        if list.is_empty() {
            return None;
        }
        let target = list[pick as usize % list.len()].clone();
        let mut outs = all.iter().map(|x| outpoint(x.2)).collect::<BTreeSet<_>>().into_iter().enumerate()
            .filter(|(n, _)| mask >> (n % 16) & 1 == 1)
            .map(|(_, o)| o)
            .collect::<BTreeSet<_>>();
        outs.insert(outpoint(target.2));
        Some((target, outs))
    }

    fn assignments_on(&self, w: usize, id: ContractId, outs: &BTreeSet<Outpoint>) -> BTreeMap<Opout, (XOutputSeal, PersistedState)> {
        self.wallets[w].m.view(id).into_iter().filter(|((_, s), _)| outs.contains(&outpoint(*s))).map(|((o, s), (st, _))| (o, (s, st))).collect()
    }

    pub fn pay(&mut self, p: &PayG) -> Res {
        let w = p.w as usize % WALLETS;
        let to = p.to as usize % WALLETS;
        let Some((target, outs)) = self.select(w, p.pick, p.mask, |x| !matches!(x.3, PersistedState::Void)) else {
            return Ok(());
        };
        let (cid, ty) = (target.0, target.1.ty);
        let method = if p.opret { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
        let own = self.assignments_on(w, cid, &outs);
        let sum: u128 = own.iter().filter(|(o, _)| o.ty == ty).filter_map(|(_, (_, s))| amount_of(s)).map(|a| a as u128).sum();
        let overflow = sum > u64::MAX as u128;
        let mut refused = p.refuse.map(|r| format!("{r:?}"));
        if overflow {
            // nothing but refusal is expressible
            refused = Some("overflow".into());
        }
        let mut paid: Option<u64> = None;
        let owned_state = match &target.3 {
            PersistedState::Amount(..) => {
                let sum = sum.min(u64::MAX as u128) as u64;
                let amt = match p.amount {
                    AmtG::All => sum,
                    AmtG::Zero => 0,
                    AmtG::Frac(n) => (sum as u128 * n as u128 / 256) as u64,
                    AmtG::Over(n) => match sum.checked_add(1 + n as u64) {
                        Some(a) => {
                            refused = refused.or(Some("over".into()));
                            a
                        }
                        None => sum,
                    },
                };
                paid = Some(amt);
                InvoiceState::Amount(Amount::from(amt))
            }
            PersistedState::Data(d, _) => {
                let a = Allocation::from_strict_serialized::<{ u16::MAX as usize }>(Confined::try_from(d.as_slice().to_vec()).unwrap())
                    .map_err(|e| Fail::new(format!("allocation unreadable: {e}")))?;
                InvoiceState::Data(NonFungible::RGB21(a))
            }
            _ => return Ok(()),
        };
        let only_asset = own.keys().all(|o| o.ty == oty(ASSET));
        let operation = match p.operation {
            1 => Some(fname("transfer")),
            2 if only_asset && ty == oty(ASSET) && paid != Some(0) => Some(fname("pay")),
            _ => None,
        };
        let (beneficiary, vout, seal) = if p.blinded {
            let seal = self.blinded(to, p.slot, p.to_opret, mix(p.seed, 5))?;
            (Beneficiary::BlindedSeal(*seal.conceal().as_reduced_unsafe()), None, seal)
        } else {
            let vout = Vout::from_u32(3 + to as u32);
            let m = if p.to_opret { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
            let seal = XChain::with(self.layer1, GraphSeal::with_blinded_vout(m, vout, mix(p.seed, 7)));
            let address = bp_address();
            (Beneficiary::WitnessVout(Pay2Vout { method: m, address }), Some(vout), seal)
        };
        let mut vout = vout;
        let mut invoice = rgbinvoice::RgbInvoiceBuilder::new(XChainNet::with(self.chain_net(), beneficiary)).finish();
        invoice.contract = Some(cid);
        invoice.iface = Some(envs()[self.env_of(cid)].0.iface.name.clone());
        invoice.operation = operation;
        invoice.assignment = (p.named || ty != oty(ASSET)).then(|| owned_name(ty.to_inner()));
        invoice.owned_state = owned_state;
        invoice.expiry = (p.seed % 3 == 0).then_some(4_000_000_000);
        let mut outs_given = outs.clone();
        let mut no_output = false;
        if let Some(r) = p.refuse {
            match r {
                Refuse::NoContract => invoice.contract = None,
                Refuse::NoIface => invoice.iface = None,
                Refuse::UnknownContract => invoice.contract = Some(ContractId::from(amplify::Bytes32::from([9u8; 32]))),
                Refuse::UnknownIface => invoice.iface = Some(strict_encoding::TypeName::try_from("NoSuchIface".to_owned()).unwrap()),
                Refuse::UnknownOperation => invoice.operation = Some(fname("burnAll")),
                Refuse::UnknownAssignment => invoice.assignment = Some(fname("gold")),
                Refuse::Expired => invoice.expiry = Some((p.seed % 1_600_000_000) as i64),
                Refuse::NoState => invoice.owned_state = InvoiceState::Void,
                Refuse::File => invoice.owned_state = InvoiceState::Attach(attach_id(1)),
                Refuse::VoutForBlinded if p.blinded => vout = Some(Vout::from_u32(1)),
                Refuse::NoVout if !p.blinded => vout = None,
                // an allocator is asked only if there is something to return
                Refuse::NoOutput if paid.map(|a| (a as u128) < sum).unwrap_or(false) => no_output = true,
                Refuse::WrongKind => {
                    // an amount of something which has no amounts
                    invoice.assignment = Some(fname(if p.seed % 2 == 0 { "token" } else { "right" }));
                    invoice.owned_state = InvoiceState::Amount(Amount::from(1 + p.seed % 3));
                }
                Refuse::WrongData => {
                    invoice.assignment = Some(fname("token"));
                    invoice.owned_state = InvoiceState::Data(NonFungible::RGB21(Allocation::with(77u32, 1u64)));
                }
                Refuse::ForeignOutputs => {
                    outs_given = bset![Outpoint::new(txid(0xDEAD), 0u32)];
                    if paid == Some(0) {
                        invoice.owned_state = InvoiceState::Amount(Amount::from(1u64));
                    }
                }
                _ => refused = if overflow { Some("overflow".into()) } else if matches!(p.amount, AmtG::Over(_)) && paid.map(|a| a as u128 > sum).unwrap_or(false) { Some("over".into()) } else { None },
            }
        }
        let seals_given = outs_given.iter().map(|o| {
            let m = if mix(p.seed, o.vout.into_u32() as u64) % 2 == 0 { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
            // any of the seals on the output names it
            let known = own.values().find(|(s, _)| outpoint(*s) == *o).map(|(s, _)| *s);
            known.unwrap_or(XChain::with(self.layer1, ExplicitSeal { method: m, txid: o.txid, vout: o.vout }))
        }).collect::<Vec<_>>();
        let seed = p.seed;
        let asked = std::cell::RefCell::new(vec![]);
        let allocator = |id: ContractId, t: AssignmentType, hint: VelocityHint| {
            asked.borrow_mut().push((id, t, hint));
            (!no_output).then(|| change_vout(seed, id, t))
        };
        let compose = |stock: &Stock, seals: Vec<XOutputSeal>| {
            stock.compose_deterministic(
                &invoice,
                seals,
                method,
                vout,
                p.priority.unwrap_or(u64::MAX),
                allocator,
                |id, t| blind(mix(mix(seed, cid_num(id)), 31 + t.to_inner() as u64)),
                |id, t| if id == cid && t == ty { mix(seed, 7) } else { mix(mix(seed, cid_num(id)), t.to_inner() as u64) },
            )
        };
        let res = total("composing a payment", || compose(&self.wallets[w].stock, seals_given.clone()))?;
        if self.flags.hints {
            self.check_hints(w, &asked.borrow())?;
        }
        let batch = match (res, &refused) {
            (Err(_), Some(_)) => {
                self.count("refused");
                return Ok(());
            }
            (Ok(_), Some(r)) => fail!("payment was composed although it must be refused: {r}"),
            (Err(e), None) => fail!("payment was refused: {e}"),
            (Ok(b), None) => b,
        };
        if self.flags.repeat {
            let other = total("composing a payment", || compose(&self.wallets[w].stock, seals_given.iter().rev().copied().collect()))?
                .map_err(|e| Fail::new(format!("payment was refused for the second time: {e}")))?;
            ensure_eq!(to_bytes(&batch), to_bytes(&other), "the same payment composed twice");
            let random = total("composing a payment", || self.wallets[w].stock.compose(&invoice, seals_given.clone(), method, vout, allocator))?
                .map_err(|e| Fail::new(format!("payment with random blinding was refused: {e}")))?;
            let (det, random) = (batch_meaning(&batch), batch_meaning(&random));
            if det != random {
                fail!("payment with random blinding differs: {det:?} / {random:?}");
            }
        }
        self.batches.push(batch.clone());
        if self.flags.compose {
            self.check_batch(w, &batch, cid, ty, &invoice, &outs, seal.conceal(), p, method)?;
        }
        let mut kinds: BTreeSet<CloseMethod> = bset![];
        for i in batch_infos(batch.clone()) {
            kinds.insert(i.method);
        }
        if kinds.len() > 1 {
            self.count("paid-both-methods");
        }
        if !batch.blanks.is_empty() {
            self.count("paid-with-blanks");
        }
        if batch.blanks.iter().any(|b| b.second.is_some()) {
            self.count("paid-with-double-blanks");
        }
        if batch.blanks.iter().any(|b| self.env_of(b.first.transition.contract_id) / 2 != self.env_of(cid) / 2) {
            self.count("paid-with-other-interfaces");
        }
        if outs.len() > 1 {
            self.count("paid-many-inputs");
        }
        self.count(if p.blinded { "paid-blinded" } else { "paid-vout" });
        self.commit(w, batch_infos(batch), mix(p.seed, 11))?;
        Ok(())
    }

    /// The hints given to the wallet are these of the known supplements.
    fn check_hints(&mut self, w: usize, asked: &[(ContractId, AssignmentType, VelocityHint)]) -> Res {
        for (id, ty, hint) in asked {
            let list = self.wallets[w].stock.as_stash_provider().supplements(ContentRef::Genesis(*id)).map_err(|e| Fail::new(format!("{e}")))?.collect::<Vec<_>>();
            let told = list.iter().map(|s| s.get(SupplSub::Assignment, SupplItem::TypeNo(ty.to_inner()), SUPPL_ANNOT_VELOCITY).and_then(Result::ok).unwrap_or_default()).collect::<Vec<VelocityHint>>();
            ensure!(told.contains(hint) || (told.is_empty() && *hint == VelocityHint::Unspecified), "hint for change is {hint:?} instead of {told:?}");
            if *hint != VelocityHint::Unspecified {
                self.count("hinted");
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn check_batch(
        &self,
        w: usize,
        batch: &Batch,
        cid: ContractId,
        ty: AssignmentType,
        invoice: &RgbInvoice,
        outs: &BTreeSet<Outpoint>,
        beneficiary: XChain<SecretSeal>,
        p: &PayG,
        method: CloseMethod,
    ) -> Res {
        // What has to be closed
        let mut expected: BTreeMap<ContractId, BTreeMap<Opout, (XOutputSeal, PersistedState)>> = bmap! {};
        for id in self.wallets[w].m.contracts.keys() {
            let a = self.assignments_on(w, *id, outs);
            if !a.is_empty() {
                expected.insert(*id, a);
            }
        }
        let mut closed: BTreeMap<ContractId, BTreeSet<Opout>> = bmap! {};
        let mut to_beneficiary = vec![];
        let mut returned: BTreeMap<(ContractId, u16), Vec<Val>> = bmap! {};
        for info in batch_infos(batch.clone()) {
            let t = &info.transition;
            let id = t.contract_id;
            let Some(known) = expected.get(&id) else { fail!("payment includes contract {id} which has no state on the selected outputs") };
            ensure_eq!(info.id, t.id(), "identifier of an operation in the batch");
            ensure_eq!(t.nonce, p.priority.unwrap_or(u64::MAX), "priority of an operation");
            if id == cid {
                let op = invoice.operation.as_ref().map(|o| o.to_string()).unwrap_or("transfer".into());
                ensure_eq!(t.transition_type.to_inner(), if op == "pay" { PAY } else { TRANSFER }, "type of the main operation");
            } else {
                ensure_eq!(t.transition_type, TransitionType::BLANK, "type of an operation of an unrelated contract");
            }
            let mut ins: BTreeMap<u16, Vec<&PersistedState>> = bmap! {};
            let mut outpoints: BTreeSet<Outpoint> = bset![];
            for i in t.inputs.iter() {
                let Some((seal, state)) = known.get(&i.prev_out) else { fail!("payment spends {} which is not on the selected outputs", i.prev_out) };
                ensure!(closed.entry(id).or_default().insert(i.prev_out), "payment spends {} twice", i.prev_out);
                ensure_eq!(seal.as_reduced_unsafe().method, info.method, "closing method of {}", i.prev_out);
                outpoints.insert(outpoint(*seal));
                ins.entry(i.prev_out.ty.to_inner()).or_default().push(state);
            }
            ensure_eq!(info.inputs.iter().map(|o| *o.as_reduced_unsafe()).collect::<BTreeSet<_>>(), outpoints, "outputs closed by an operation");
            let mut outs_by: BTreeMap<u16, Vec<PersistedState>> = bmap! {};
            for i in items(&t.assignments) {
                let Some(state) = i.state else { fail!("payment conceals state") };
                if i.secret == beneficiary && id == cid && i.ty == ty.to_inner() {
                    to_beneficiary.push(meaning(&state));
                } else {
                    let Some(seal) = i.seal else { fail!("payment assigns state to an unknown blinded seal") };
                    let want = XChain::with(self.layer1, GraphSeal::with_blinded_vout(method, change_vout(p.seed, id, oty(i.ty)), seal.as_reduced_unsafe().blinding));
                    ensure_eq!(seal, want, "seal of the returned state");
                    returned.entry((id, i.ty)).or_default().push(meaning(&state));
                }
                outs_by.entry(i.ty).or_default().push(state);
            }
            // Each operation conserves the state of each type
            for t in ins.keys().chain(outs_by.keys()).copied().collect::<BTreeSet<_>>() {
                let a = ins.get(&t).cloned().unwrap_or_default();
                let b = outs_by.get(&t).cloned().unwrap_or_default();
                if t == ASSET || t == BONUS {
                    let sum = |l: Vec<u64>| l.into_iter().map(|x| x as u128).sum::<u128>();
                    ensure_eq!(
                        sum(a.iter().filter_map(|s| amount_of(s)).collect()),
                        sum(b.iter().filter_map(amount_of).collect()),
                        "amount of type {t} spent and assigned by one operation"
                    );
                    let ca = a.iter().filter_map(|s| commitment(s)).collect::<Vec<_>>();
                    let cb = b.iter().filter_map(commitment).collect::<Vec<_>>();
                    ensure!(balanced(&ca, &cb), "commitments of type {t} are not balanced");
                } else {
                    let mut a = a.into_iter().map(meaning).collect::<Vec<_>>();
                    let mut b = b.iter().map(meaning).collect::<Vec<_>>();
                    a.sort();
                    b.sort();
                    ensure_eq!(a, b, "state of type {t} spent and assigned by one operation");
                }
            }
        }
        for (id, known) in &expected {
            ensure_eq!(
                closed.get(id).cloned().unwrap_or_default(),
                known.keys().copied().collect::<BTreeSet<_>>(),
                "assignments of contract {} closed by the payment", id
            );
        }
        match &invoice.owned_state {
            InvoiceState::Amount(a) => {
                let sum: u128 = to_beneficiary.iter().map(|v| if let Val::Amount(a) = v { *a as u128 } else { 0 }).sum();
                ensure_eq!(sum, a.value() as u128, "amount paid to the beneficiary");
                ensure!(to_beneficiary.iter().all(|v| *v != Val::Amount(0)), "empty payment to the beneficiary");
            }
            InvoiceState::Data(NonFungible::RGB21(a)) => {
                ensure_eq!(to_beneficiary, vec![Val::Data(DataState::from(*a).as_slice().to_vec())], "data paid to the beneficiary");
            }
            _ => {}
        }
        Ok(())
    }

    fn split(&mut self, w: usize, pick: u8, mask: u16, parts: &[PartG], logs: &[u64], each: bool, seed: u64) -> Res {
        let Some((target, mut outs)) = self.select(w, pick, if each { mask } else { mask & (mask >> 3) }, |x| !matches!(x.3, PersistedState::Void)) else {
            return Ok(());
        };
        let cid = target.0;
        // seals to pay to
        let mut seals: Vec<(BuilderSeal<GraphSeal>, u8)> = vec![];
        let mut last: Option<XChain<GraphSeal>> = None;
        for (n, part) in parts.iter().enumerate() {
            let to = part.to as usize % WALLETS;
            let m = if part.opret { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
            let seal = if part.blinded {
                let seal = match last {
                    Some(s) if part.same => s,
                    _ => self.blinded(to, (n % 6) as u8, part.opret, mix(seed, 20 + n as u64))?,
                };
                last = Some(seal);
                BuilderSeal::Concealed(seal.conceal())
            } else {
                BuilderSeal::Revealed(XChain::with(self.layer1, GraphSeal::with_blinded_vout(m, 3 + to as u32, mix(seed, 20 + if part.same { 0 } else { n as u64 }))))
            };
            seals.push((seal, part.frac));
        }
        // a newly funded output could be the same as the one just spent
        outs.retain(|o| !self.is_spent(*o));
        let mut infos = vec![];
        let contracts = self.wallets[w].m.contracts.keys().copied().collect::<Vec<_>>();
        for id in contracts {
            for method in [CloseMethod::TapretFirst, CloseMethod::OpretFirst] {
                let all = self.assignments_on(w, id, &outs).into_iter().filter(|(_, (s, _))| s.as_reduced_unsafe().method == method).collect::<BTreeMap<_, _>>();
                let mut groups: BTreeMap<Option<Outpoint>, BTreeMap<_, _>> = bmap! {};
                for (k, v) in all {
                    groups.entry((each && id == cid).then(|| outpoint(v.0))).or_default().insert(k, v);
                }
                for (g, own) in groups.into_values().enumerate() {
                    let seed = if g == 0 { seed } else { mix(seed, 1000 + g as u64) };
                    let iface = envs()[self.env_of(id)].0.iface.name.clone();
                    let stock = &self.wallets[w].stock;
                    let bad = |e: BuilderError| Fail::new(format!("building a transition was refused: {e}"));
                    let mut b = total("transition builder", || if id == cid { stock.transition_builder(id, iface, None::<strict_encoding::FieldName>) } else { stock.blank_builder(id, iface) })?
                        .map_err(|e| Fail::new(format!("no transition builder: {e}")))?;
                    b = b.set_nonce(mix(seed, 3) % 4);
                    let change = |ty: AssignmentType| XChain::with(self.layer1, GraphSeal::with_blinded_vout(method, change_vout(seed, id, ty), mix(mix(seed, cid_num(id)), ty.to_inner() as u64)));
                    let mut sums: BTreeMap<AssignmentType, u64> = bmap! {};
                    let mut over = false;
                    for (n, (opout, (_, state))) in own.iter().enumerate() {
                        b = b.add_input(*opout, state.clone()).map_err(bad)?;
                        if let Some(a) = amount_of(state) {
                            let s = sums.entry(opout.ty).or_default();
                            match s.checked_add(a) {
                                Some(x) => *s = x,
                                None => over = true,
                            }
                        } else {
                            let seal = if id == cid { seals[n % seals.len()].0 } else { BuilderSeal::Revealed(change(opout.ty)) };
                            b = b.add_owned_state_raw(opout.ty, seal, state.clone()).map_err(bad)?;
                        }
                    }
                    if over {
                        return Ok(());
                    }
                    for (ty, sum) in sums {
                        let mut rest = sum;
                        if id == cid {
                            for (n, (seal, frac)) in seals.iter().enumerate() {
                                let a = (sum as u128 * *frac as u128 / 256).min(rest as u128) as u64;
                                if a == 0 {
                                    continue;
                                }
                                rest -= a;
                                b = b.add_fungible_state_raw(ty, *seal, a, blind(mix(seed, 50 + n as u64 + ty.to_inner() as u64))).map_err(bad)?;
                            }
                        }
                        if rest > 0 {
                            b = b.add_fungible_state_raw(ty, change(ty), rest, blind(mix(seed, 90 + ty.to_inner() as u64))).map_err(bad)?;
                        }
                    }
                    if id == cid && g == 0 {
                        let limit = self.log_limit(id);
                        for (n, l) in logs.iter().enumerate() {
                            if n < limit {
                                b = b.add_global_state("log", Amount::from(*l)).map_err(bad)?;
                            }
                            b = b.add_global_state("note", note(*l)).map_err(bad)?;
                        }
                    }
                    let t = total("completing a transition", || b.complete_transition())?.map_err(bad)?;
                    let info = TransitionInfo::new(t, own.values().map(|(s, _)| *s).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>()).map_err(|e| Fail::new(format!("transition info was refused: {e}")))?;
                    infos.push(info);
                }
            }
        }
        if infos.is_empty() {
            return Ok(());
        }
        if infos.iter().map(|i| (i.transition.contract_id, i.method as u8)).collect::<BTreeSet<_>>().len() < infos.len() {
            self.count("split-into-several");
        }
        self.commit(w, infos, mix(seed, 12))?;
        self.count("split");
        Ok(())
    }

    fn record(&mut self, w: usize, pick: u8, logs: &[u64], to: usize, opret: bool, seed: u64) -> Res {
        // an output holding nothing but rights of one contract
        let all = self.spendable(w);
        let Some((target, _)) = self.select(w, pick, 0, |x| {
            matches!(x.3, PersistedState::Void) && all.iter().all(|y| outpoint(y.2) != outpoint(x.2) || (y.0 == x.0 && y.2 == x.2 && matches!(y.3, PersistedState::Void)))
        }) else {
            return Ok(());
        };
        let id = target.0;
        let outs = bset![outpoint(target.2)];
        let own = self.assignments_on(w, id, &outs);
        // dropped transactions the wallet is not aware of
        if own.values().any(|(s, state)| *s != target.2 || !matches!(state, PersistedState::Void)) {
            return Ok(());
        }
        let iface = envs()[self.env_of(id)].0.iface.name.clone();
        let bad = |e: BuilderError| Fail::new(format!("building a transition was refused: {e}"));
        let mut b = total("transition builder", || self.wallets[w].stock.transition_builder(id, iface, Some(fname("record"))))?
            .map_err(|e| Fail::new(format!("no transition builder: {e}")))?;
        b = b.set_nonce(mix(seed, 3) % 4);
        for (opout, (_, state)) in &own {
            b = b.add_input(*opout, state.clone()).map_err(bad)?;
        }
        let method = if opret { CloseMethod::OpretFirst } else { CloseMethod::TapretFirst };
        for n in 0..own.len() as u64 {
            let vout = if to == w { 1 } else { 3 + to as u32 };
            let seal: XChain<GraphSeal> = XChain::with(self.layer1, GraphSeal::with_blinded_vout(method, vout, mix(seed, n)));
            b = b.add_rights("right", seal).map_err(bad)?;
        }
        for l in logs.iter().take(self.log_limit(id)) {
            b = b.add_global_state("log", Amount::from(*l)).map_err(bad)?;
        }
        b = b.add_global_state("note", note(seed % 50)).map_err(bad)?;
        let t = total("completing a transition", || b.complete_transition())?.map_err(bad)?;
        let info = TransitionInfo::new(t, own.values().map(|(s, _)| *s).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>()).map_err(|e| Fail::new(format!("transition info was refused: {e}")))?;
        self.commit(w, vec![info], mix(seed, 13))?;
        self.count("recorded");
        Ok(())
    }

    /// All the operations a consignment made by the wallet may need are valid for the wallet.
    fn prepare(&mut self, w: usize) -> Res { self.sync(w, 0, 0) }

    pub fn accept_transfer(&mut self, to: usize, transfer: Transfer, what: &str) -> Res {
        let cid = transfer.contract_id();
        let env = self.env_of(cid);
        let genesis = transfer.genesis.clone();
        let terminals = transfer.terminals.iter().map(|(b, s)| (*b, *s)).collect::<BTreeMap<_, _>>();
        let bundles = Self::consignment_bundles(&transfer, &terminals);
        let World { wallets, chain, testnet, .. } = self;
        let valid = total("validation", || transfer.validate(&*chain, *testnet))?
            .map_err(|(status, _)| Fail::new(format!("{what} is not valid: {status}")))?;
        total("accepting a transfer", || wallets[to].stock.accept_transfer(valid, &*chain))?
            .map_err(|e| Fail::new(format!("{what} was not accepted: {e}")))?;
        self.learn_consignment(to, &genesis, env, &bundles);
        Ok(())
    }

    pub fn accept_contract(&mut self, to: usize, contract: Contract, what: &str) -> Res {
        let cid = contract.contract_id();
        let env = self.env_of(cid);
        let genesis = contract.genesis.clone();
        let terminals = contract.terminals.iter().map(|(b, s)| (*b, *s)).collect::<BTreeMap<_, _>>();
        let bundles = Self::consignment_bundles(&contract, &terminals);
        let World { wallets, chain, testnet, .. } = self;
        let valid = total("validation", || contract.validate(&*chain, *testnet))?
            .map_err(|(status, _)| Fail::new(format!("{what} is not valid: {status}")))?;
        total("importing a contract", || wallets[to].stock.import_contract(valid, &*chain))?
            .map_err(|e| Fail::new(format!("{what} was not imported: {e}")))?;
        self.learn_consignment(to, &genesis, env, &bundles);
        Ok(())
    }

    /// The wallet reports the given state.
    pub fn check_arrived(&self, w: usize, contract: ContractId, expect: &[(Opout, XOutputSeal, PersistedState)], witness: Option<XWitnessId>) -> Res {
        let stock = &self.wallets[w].stock;
        let outs = expect.iter().map(|e| XOutpoint::from(e.1)).collect::<BTreeSet<_>>();
        let res = total("reading assignments", || stock.contract_assignments_for(contract, outs))?
            .map_err(|e| Fail::new(format!("received contract is not readable: {e}")))?;
        for (opout, seal, state) in expect {
            let got = res.get(seal).and_then(|m| m.get(opout));
            ensure_eq!(got, Some(state), "state {} received at {}", opout, seal);
        }
        let view = total("reading state", || stock.contract_state(contract))?.map_err(|e| Fail::new(format!("received contract is not readable: {e}")))?;
        if let Some(witness) = witness {
            use rgbstd::persistence::ContractStateRead;
            let found = view.fungible_all().map(|a| (a.opout, a.seal, a.witness))
                .chain(view.data_all().map(|a| (a.opout, a.seal, a.witness)))
                .chain(view.rights_all().map(|a| (a.opout, a.seal, a.witness)))
                .collect::<Vec<_>>();
            for (opout, seal, _) in expect {
                ensure!(found.iter().any(|f| f.0 == *opout && f.1 == *seal && f.2.is_some()), "state {opout} received at {seal} names no witness (must be {witness})");
            }
        }
        Ok(())
    }

    pub fn deliver(&mut self, ix: usize, bytes: bool, third: bool, hide: Option<u64>) -> Res {
        let d = self.deliveries[ix].clone();
        if !d.ops.iter().all(|o| self.op_ok(*o)) || !self.alive(d.witness) {
            return Ok(());
        }
        self.prepare(d.from)?;
        if !self.provable(d.from, d.contract, d.ops.iter().copied()) {
            return Ok(());
        }
        let seals = d.seals.iter().copied().collect::<Vec<_>>();
        let mut transfer = total("making a transfer", || self.wallets[d.from].stock.transfer(d.contract, &seals, d.secret))?
            .map_err(|e| Fail::new(format!("transfer was not made: {e}")))?;
        if let Some(mask) = hide {
            if veil(&mut transfer, &d.expect.iter().map(|e| e.0).collect(), mask) > 0 {
                self.count("seals-hidden");
            }
        }
        let data = to_bytes(&transfer);
        if bytes {
            transfer = from_bytes::<Transfer>(data.clone()).map_err(|e| Fail::new(format!("transfer is not readable: {e}")))?;
        }
        self.sent.push((true, data));
        self.accept_transfer(d.to, transfer, "transfer")?;
        self.deliveries[ix].done = true;
        if self.flags.arrive {
            self.check_arrived(d.to, d.contract, &d.expect, Some(d.witness))?;
            if third {
                // The recipient is able to prove the same to anybody else
                let seals = d.expect.iter().map(|e| e.1).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
                self.prepare(d.to)?;
                let pts = seals.iter().map(|s| outpoint(*s)).collect::<BTreeSet<_>>();
                let others = self.wallets[d.to].m.contracts[&d.contract].places.iter().filter(|(s, _)| pts.contains(&outpoint(**s))).flat_map(|(_, o)| o.iter().map(|o| o.op)).collect::<Vec<_>>();
                if !self.provable(d.to, d.contract, others) {
                    return Ok(());
                }
                let again = total("making a transfer", || self.wallets[d.to].stock.transfer(d.contract, &seals, None))?
                    .map_err(|e| Fail::new(format!("received state can't be transferred: {e}")))?;
                let t = (d.to + 1) % WALLETS;
                self.accept_transfer(t, again, "re-exported transfer")?;
                self.check_arrived(t, d.contract, &d.expect, Some(d.witness))?;
                self.count("re-exported");
            }
        }
        self.count(if d.secret.is_some() { "delivered-blinded" } else { "delivered-vout" });
        Ok(())
    }

    /// The wallet knows valid witnesses for the whole history of the operations.
    pub fn provable(&self, w: usize, id: ContractId, ops: impl IntoIterator<Item = OpId>) -> bool {
        let Some(c) = self.wallets[w].m.contracts.get(&id) else { return false };
        let mut ops = ops.into_iter().collect::<Vec<_>>();
        let mut done = bset![];
        while let Some(op) = ops.pop() {
            let Some(r) = self.ops.get(&op) else { continue };
            if !done.insert(op) {
                continue;
            }
            let ok = c.ops.get(&op).into_iter().flatten().flat_map(|b| &c.bundles[b]).any(|w_id| self.alive(*w_id) && self.wallets[w].m.valid(&Some(*w_id)));
            if !ok {
                return false;
            }
            ops.extend(r.deps.iter().copied());
            // A bundle is always sent with all its transitions
            let bundles = &c.ops[&op];
            ops.extend(c.ops.iter().filter(|(_, b)| b.iter().any(|b| bundles.contains(b))).map(|(op, _)| *op));
        }
        true
    }

    fn share(&mut self, from: usize, to: usize, contract: u8) -> Res {
        let list = self.wallets[from].m.contracts.keys().copied().collect::<Vec<_>>();
        if list.is_empty() {
            return Ok(());
        }
        let id = list[contract as usize % list.len()];
        let c = total("exporting a contract", || self.wallets[from].stock.export_contract(id))?
            .map_err(|e| Fail::new(format!("contract was not exported: {e}")))?;
        self.sent.push((false, to_bytes(&c)));
        self.accept_contract(to, c, "exported contract")?;
        self.count("shared");
        Ok(())
    }

    fn send(&mut self, from: usize, to: usize, contract: u8, mask: u16) -> Res {
        let list = self.wallets[from].m.contracts.keys().copied().collect::<Vec<_>>();
        if list.is_empty() {
            return Ok(());
        }
        let id = list[contract as usize % list.len()];
        self.prepare(from)?;
        let expect = self.wallets[from]
            .m
            .view(id)
            .into_iter()
            .enumerate()
            .filter(|(n, ((opout, _), _))| mask >> (n % 16) & 1 == 1 && self.provable(from, id, [opout.op]))
            .map(|(_, ((opout, seal), (s, _)))| (opout, seal, s))
            .collect::<Vec<_>>();
        // other state on the same outputs has to be valid too
        let seals = expect.iter().map(|e| e.1).collect::<BTreeSet<_>>();
        let pts = seals.iter().map(|s| outpoint(*s)).collect::<BTreeSet<_>>();
        let c = &self.wallets[from].m.contracts[&id];
        if !self.provable(from, id, c.places.iter().filter(|(s, _)| pts.contains(&outpoint(**s))).flat_map(|(_, o)| o.iter().map(|o| o.op))) {
            return Ok(());
        }
        let t = total("making a transfer", || self.wallets[from].stock.transfer(id, seals.into_iter().collect::<Vec<_>>(), None))?
            .map_err(|e| Fail::new(format!("transfer of known state was not made: {e}")))?;
        self.sent.push((true, to_bytes(&t)));
        self.accept_transfer(to, t, "transfer of known state")?;
        if self.flags.arrive {
            self.check_arrived(to, id, &expect, None)?;
        }
        self.count("sent");
        Ok(())
    }

    fn again(&mut self, ix: u8, to: usize) -> Res {
        if self.sent.is_empty() {
            return Ok(());
        }
        let (is_transfer, data) = self.sent[self.sent.len() - 1 - ix as usize % self.sent.len()].clone();
        if is_transfer {
            let t = from_bytes::<Transfer>(data).map_err(|e| Fail::new(format!("transfer is not readable: {e}")))?;
            if !t.bundled_witnesses().all(|b| self.alive(b.pub_witness.to_witness_id())) {
                return Ok(());
            }
            self.accept_transfer(to, t, "transfer sent again")?;
        } else {
            let t = from_bytes::<Contract>(data).map_err(|e| Fail::new(format!("contract is not readable: {e}")))?;
            self.accept_contract(to, t, "contract sent again")?;
        }
        self.count("again");
        Ok(())
    }
}

pub fn change_vout(seed: u64, id: ContractId, ty: AssignmentType) -> Vout { Vout::from_u32((mix(mix(seed, cid_num(id)), ty.to_inner() as u64 + 1) % 3) as u32) }

fn bp_address() -> invoice::AddressPayload {
    use std::str::FromStr;
    invoice::Address::from_str("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4").expect("valid address").payload
}

/// Runs a history, calling `after` after each step.
pub fn run_history(h: &History, flags: Flags, cov: &mut Cov, mut after: impl FnMut(&mut World, usize) -> Res) -> Res<World> {
    let mut world = World::new(h, flags);
    for (n, s) in h.steps.iter().enumerate() {
        world.step(s).and_then(|_| after(&mut world, n)).map_err(|mut f| {
            f.msg = format!("step {n} {s:?}: {}", f.msg);
            f
        })?;
    }
    for (k, _) in world.stats.iter() {
        cov.class(*k);
    }
    Ok(world)
}

pub fn xo(layer1: Layer1, o: Outpoint) -> XOutpoint {
    let x: XChain<Outpoint> = XChain::with(layer1, o);
    XOutpoint::from(x)
}

/// A payment without its blinding entropy.
fn batch_meaning(batch: &Batch) -> Vec<String> {
    fn outs<St: ExposedState>(v: &[Assign<St, GraphSeal>], f: impl Fn(&St) -> String) -> Vec<String> {
        let mut list = v
            .iter()
            .map(|a| {
                let at = match a.revealed_seal() {
                    Some(s) => format!("{} {:?} {:?} {}", s.layer1(), s.method(), s.txid(), s.vout()),
                    None => a.to_confidential_seal().to_string(),
                };
                format!("{at} {}", a.as_revealed_state().map(&f).unwrap_or_default())
            })
            .collect::<Vec<_>>();
        list.sort();
        list
    }
    let mut list = batch_infos(batch.clone())
        .iter()
        .map(|i| {
            let t = &i.transition;
            let owned = t
                .assignments
                .iter()
                .map(|(ty, a)| {
                    (*ty, match a {
                        TypedAssigns::Declarative(v) => outs(v, |_| "right".into()),
                        TypedAssigns::Fungible(v) => outs(v, |s| format!("{} {:?}", s.value.as_u64(), s.tag)),
                        TypedAssigns::Structured(v) => outs(v, |s| format!("{:02x?}", s.value.as_slice())),
                        TypedAssigns::Attachment(v) => outs(v, |s| format!("{:?}", s.file)),
                    })
                })
                .collect::<Vec<_>>();
            format!(
                "{} {:?} {:?} {:?} {:?} {:?} {:?} {owned:?}",
                t.contract_id, t.transition_type, i.method, i.inputs, t.inputs, t.globals, t.metadata
            )
        })
        .collect::<Vec<_>>();
    list.sort();
    list
}
