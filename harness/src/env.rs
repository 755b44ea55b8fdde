//! A contract environment: schema, interface, implementation, a fake chain and
//! witness transactions with real commitments.

use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroU32;
use std::str::FromStr;

use aluvm::isa::{ControlFlowOp, Instr, PutOp};
use aluvm::library::{Lib, LibSite};
use aluvm::reg::{Reg16, Reg32, RegA, RegS};
use amplify::confinement::{Confined, NonEmptyOrdMap, TinyOrdMap, TinyOrdSet};
use amplify::num::{u24, u5};
use amplify::{ByteArray, Wrapper};
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::{TapretPathProof, TapretProof};
use bp::dbc::Anchor;
use bp::seals::txout::CloseMethod;
use bp::{InternalPk, LockTime, Outpoint, Sats, ScriptPubkey, SeqNo, SigScript, Tx, TxIn, TxOut, TxVer, Txid};
use commit_verify::{mpc, CommitId, ConvolveCommit, EmbedCommitVerify, TryCommitVerify};
use rgb::validation::{ResolveWitness, Scripts, WitnessResolverError};
use rgb::vm::{ContractOp, RgbIsa, WitnessOrd, WitnessPos, XWitnessId, XWitnessTx};
use rgb::*;
use rgbstd::containers::{AnchorSet, Batch, BundleDichotomy, Dichotomy, Fascia, Kit, PubWitness, TransitionInfo, ValidKit};
use rgbstd::interface::*;
use rgbstd::persistence::MemContract;
use rgbstd::stl::StandardTypes;
use strict_encoding::{FieldName, TypeName};
use strict_types::TypeSystem;

pub const SPEC: u16 = 2000;
pub const TERMS: u16 = 2001;
pub const SUPPLY: u16 = 2002;
pub const LOG: u16 = 2003;
pub const NOTE: u16 = 2004;

pub const ASSET: u16 = 4000;
pub const BONUS: u16 = 4001;
pub const TOKEN: u16 = 4002;
pub const RIGHT: u16 = 4003;
pub const DOC: u16 = 4004;

pub const META: u16 = 1000;
pub const VALENCY: u16 = 5000;
pub const EXT: u16 = 8000;
pub const TRANSFER: u16 = 10000;
pub const PAY: u16 = 10001;
pub const RECORD: u16 = 10002;

pub const OWNED: [(u16, &str); 5] = [(ASSET, "asset"), (BONUS, "bonus"), (TOKEN, "token"), (RIGHT, "right"), (DOC, "doc")];

pub fn fname(s: &str) -> FieldName { FieldName::from_str(s).unwrap() }
pub fn oty(t: u16) -> AssignmentType { AssignmentType::with(t) }
pub fn gty(t: u16) -> GlobalStateType { GlobalStateType::with(t) }
pub fn owned_name(t: u16) -> FieldName { fname(OWNED.iter().find(|(n, _)| *n == t).unwrap().1) }

/// Parameters distinguishing schemata.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub struct SchemaParams {
    /// limit of the `log` global state
    pub log_limit: u8,
    pub variant: u8,
    /// genesis and `record` require metadata
    pub meta: bool,
}

#[derive(Clone, Debug)]
pub struct Env {
    pub schema: Schema,
    pub iface: Iface,
    pub iimpl: IfaceImpl,
    pub types: TypeSystem,
    pub scripts: Scripts,
}

type Code = Instr<RgbIsa<MemContract>>;

fn code_ok() -> Vec<Code> { vec![Instr::ControlFlow(ControlFlowOp::Ret)] }
fn code_pcvs() -> Vec<Code> {
    vec![Instr::ExtensionCodes(RgbIsa::Contract(ContractOp::Pcvs(oty(ASSET)))), Instr::ControlFlow(ControlFlowOp::Ret)]
}
/// Reads the amount of the `log` values in the contract state.
fn code_count() -> Vec<Code> {
    let _ = (PutOp::ClrA(RegA::A8, Reg32::Reg0), Reg16::Reg0, RegS::from(0));
    vec![
        Instr::ExtensionCodes(RgbIsa::Contract(ContractOp::CnC(gty(LOG), Reg32::Reg1))),
        Instr::ControlFlow(ControlFlowOp::Ret),
    ]
}

fn lib(code: &[Code]) -> Lib { Lib::assemble::<Code>(code).expect("valid code") }

fn occ_map<K: Ord + Clone + std::hash::Hash>(items: impl IntoIterator<Item = (K, Occurrences)>) -> TinyOrdMap<K, Occurrences> {
    TinyOrdMap::from_iter_checked(items)
}

pub fn iface(meta: bool) -> Iface {
    let memo = || if meta { TinyOrdSet::from_iter_checked([fname("memo")]) } else { none!() };
    let types = StandardTypes::new();
    let all_owned = || occ_map(OWNED.iter().map(|(_, n)| (fname(n), Occurrences::NoneOrMore)));
    Iface {
        version: VerNo::V1,
        name: TypeName::from_str(if meta { "MemoAsset" } else { "TestAsset" }).unwrap(),
        inherits: none!(),
        timestamp: 1711405444,
        metadata: TinyOrdMap::from_iter_checked(meta.then(|| (fname("memo"), types.get("RGBContract.Amount")))),
        global_state: TinyOrdMap::from_iter_checked([
            (fname("spec"), GlobalIface::required(types.get("RGBContract.AssetSpec"))),
            (fname("terms"), GlobalIface::optional(types.get("RGBContract.ContractTerms"))),
            (fname("issuedSupply"), GlobalIface::optional(types.get("RGBContract.Amount"))),
            (fname("log"), GlobalIface::none_or_many(types.get("RGBContract.Amount"))),
            (fname("note"), GlobalIface::none_or_many(types.get("RGBContract.Details"))),
        ]),
        assignments: TinyOrdMap::from_iter_checked([
            (fname("asset"), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)),
            (fname("bonus"), AssignIface::private(OwnedIface::Amount, Req::NoneOrMore)),
            (fname("token"), AssignIface::private(OwnedIface::Data(types.get("RGBContract.Allocation")), Req::NoneOrMore)),
            (fname("right"), AssignIface::public(OwnedIface::Rights, Req::NoneOrMore)),
            (fname("doc"), AssignIface::private(OwnedIface::AnyAttach, Req::NoneOrMore)),
        ]),
        valencies: none!(),
        genesis: GenesisIface {
            modifier: Modifier::Final,
            metadata: memo(),
            globals: occ_map([
                (fname("spec"), Occurrences::Once),
                (fname("terms"), Occurrences::NoneOrOnce),
                (fname("issuedSupply"), Occurrences::NoneOrOnce),
                (fname("log"), Occurrences::NoneOrMore),
                (fname("note"), Occurrences::NoneOrMore),
            ]),
            assignments: all_owned(),
            valencies: none!(),
            errors: none!(),
        },
        transitions: TinyOrdMap::from_iter_checked([
            (fname("transfer"), TransitionIface {
                modifier: Modifier::Final,
                optional: false,
                metadata: none!(),
                globals: occ_map([(fname("log"), Occurrences::NoneOrMore), (fname("note"), Occurrences::NoneOrMore)]),
                inputs: all_owned(),
                assignments: all_owned(),
                valencies: none!(),
                errors: none!(),
                default_assignment: Some(fname("asset")),
            }),
            (fname("pay"), TransitionIface {
                modifier: Modifier::Final,
                optional: false,
                metadata: none!(),
                globals: none!(),
                inputs: occ_map([(fname("asset"), Occurrences::OnceOrMore)]),
                assignments: occ_map([(fname("asset"), Occurrences::OnceOrMore)]),
                valencies: none!(),
                errors: none!(),
                default_assignment: Some(fname("asset")),
            }),
            (fname("record"), TransitionIface {
                modifier: Modifier::Final,
                optional: false,
                metadata: memo(),
                globals: occ_map([(fname("log"), Occurrences::OnceOrMore), (fname("note"), Occurrences::NoneOrMore)]),
                inputs: occ_map([(fname("right"), Occurrences::OnceOrMore)]),
                assignments: occ_map([(fname("right"), Occurrences::OnceOrMore)]),
                valencies: none!(),
                errors: none!(),
                default_assignment: Some(fname("right")),
            }),
        ]),
        extensions: none!(),
        default_operation: Some(fname("transfer")),
        errors: none!(),
        developer: Identity::default(),
    }
}

pub fn schema(p: SchemaParams, scripts: &[Lib]) -> Schema {
    let types = StandardTypes::new();
    let all_owned = || occ_map(OWNED.iter().map(|(n, _)| (oty(*n), Occurrences::NoneOrMore)));
    let global = |sem: &'static str, max: u32| GlobalStateSchema {
        reserved: none!(),
        sem_id: types.get(sem),
        max_items: u24::try_from(max).unwrap(),
    };
    let memo = || if p.meta { TinyOrdSet::from_iter_checked([MetaType::with(META)]) } else { none!() };
    let site = |n: usize| Some(LibSite::with(0, scripts[n].id()));
    Schema {
        ffv: none!(),
        flags: none!(),
        name: TypeName::from_str(&format!("TestSchema{}", p.variant)).unwrap(),
        timestamp: 1711405444,
        developer: Identity::default(),
        meta_types: TinyOrdMap::from_iter_checked(
            p.meta.then(|| (MetaType::with(META), types.get("RGBContract.Amount"))),
        ),
        global_types: TinyOrdMap::from_iter_checked([
            (gty(SPEC), global("RGBContract.AssetSpec", 1)),
            (gty(TERMS), global("RGBContract.ContractTerms", 1)),
            (gty(SUPPLY), global("RGBContract.Amount", 1)),
            (gty(LOG), global("RGBContract.Amount", p.log_limit as u32)),
            (gty(NOTE), global("RGBContract.Details", 0xFFFF)),
        ]),
        owned_types: TinyOrdMap::from_iter_checked([
            (oty(ASSET), OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
            (oty(BONUS), OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit)),
            (oty(TOKEN), OwnedStateSchema::Structured(types.get("RGBContract.Allocation"))),
            (oty(RIGHT), OwnedStateSchema::Declarative),
            (oty(DOC), OwnedStateSchema::Attachment(MediaType::Any)),
        ]),
        valency_types: TinyOrdSet::from_iter_checked([ValencyType::with(VALENCY)]),
        genesis: GenesisSchema {
            metadata: memo(),
            globals: occ_map([
                (gty(SPEC), Occurrences::Once),
                (gty(TERMS), Occurrences::NoneOrOnce),
                (gty(SUPPLY), Occurrences::NoneOrOnce),
                (gty(LOG), Occurrences::NoneOrMore),
                (gty(NOTE), Occurrences::NoneOrMore),
            ]),
            assignments: all_owned(),
            valencies: TinyOrdSet::from_iter_checked([ValencyType::with(VALENCY)]),
            validator: site(0),
        },
        extensions: TinyOrdMap::from_iter_checked([(ExtensionType::with(EXT), ExtensionSchema {
            metadata: none!(),
            globals: occ_map([(gty(LOG), Occurrences::NoneOrMore), (gty(NOTE), Occurrences::NoneOrMore)]),
            redeems: TinyOrdSet::from_iter_checked([ValencyType::with(VALENCY)]),
            assignments: all_owned(),
            valencies: none!(),
            validator: site(0),
        })]),
        transitions: TinyOrdMap::from_iter_checked([
            (TransitionType::with(TRANSFER), TransitionSchema {
                metadata: none!(),
                globals: occ_map([(gty(LOG), Occurrences::NoneOrMore), (gty(NOTE), Occurrences::NoneOrMore)]),
                inputs: all_owned(),
                assignments: all_owned(),
                valencies: none!(),
                validator: site(0),
            }),
            (TransitionType::with(PAY), TransitionSchema {
                metadata: none!(),
                globals: none!(),
                inputs: occ_map([(oty(ASSET), Occurrences::OnceOrMore)]),
                assignments: occ_map([(oty(ASSET), Occurrences::OnceOrMore)]),
                valencies: none!(),
                validator: site(1),
            }),
            (TransitionType::with(RECORD), TransitionSchema {
                metadata: memo(),
                globals: occ_map([(gty(LOG), Occurrences::OnceOrMore), (gty(NOTE), Occurrences::NoneOrMore)]),
                inputs: occ_map([(oty(RIGHT), Occurrences::OnceOrMore)]),
                assignments: occ_map([(oty(RIGHT), Occurrences::OnceOrMore)]),
                valencies: none!(),
                validator: site(2),
            }),
        ]),
        reserved: none!(),
    }
}

pub fn iimpl(schema: &Schema, iface: &Iface) -> IfaceImpl {
    IfaceImpl {
        version: VerNo::V1,
        schema_id: schema.schema_id(),
        iface_id: iface.iface_id(),
        timestamp: 1711405444,
        metadata: TinyOrdSet::from_iter_checked(
            schema.meta_types.keys().map(|t| NamedField::with(*t, fname("memo"))),
        ),
        global_state: TinyOrdSet::from_iter_checked([
            NamedField::with(gty(SPEC), fname("spec")),
            NamedField::with(gty(TERMS), fname("terms")),
            NamedField::with(gty(SUPPLY), fname("issuedSupply")),
            NamedField::with(gty(LOG), fname("log")),
            NamedField::with(gty(NOTE), fname("note")),
        ]),
        assignments: TinyOrdSet::from_iter_checked(OWNED.iter().map(|(t, n)| NamedField::with(oty(*t), fname(n)))),
        valencies: none!(),
        transitions: TinyOrdSet::from_iter_checked([
            NamedField::with(TransitionType::with(TRANSFER), fname("transfer")),
            NamedField::with(TransitionType::with(PAY), fname("pay")),
            NamedField::with(TransitionType::with(RECORD), fname("record")),
        ]),
        extensions: none!(),
        errors: none!(),
        developer: Identity::default(),
    }
}

impl Env {
    pub fn new(p: SchemaParams) -> Env {
        let mut libs = vec![lib(&code_ok()), lib(&code_pcvs()), lib(&code_count())];
        if p.variant & 1 == 1 {
            // the script is in a library used by the entry one
            let inner = libs[1].id();
            libs.push(lib(&[Instr::ControlFlow(ControlFlowOp::Exec(LibSite::with(0, inner)))]));
            libs.swap(1, 3);
        }
        let schema = schema(p, &libs);
        let iface = iface(p.meta);
        let iimpl = iimpl(&schema, &iface);
        let scripts = Confined::from_iter_checked(libs.into_iter().map(|l| (l.id(), l)));
        Env { schema, iface, iimpl, types: StandardTypes::new().type_system(), scripts }
    }

    pub fn basic() -> Env { Env::new(SchemaParams { log_limit: 4, variant: 0, meta: false }) }

    pub fn kit(&self) -> Kit {
        let mut kit = Kit::default();
        kit.schemata.push(self.schema.clone()).unwrap();
        kit.ifaces.push(self.iface.clone()).unwrap();
        kit.iimpls.push(self.iimpl.clone()).unwrap();
        kit.types = self.types.clone();
        kit.scripts.extend(self.scripts.values().cloned()).unwrap();
        kit
    }

    pub fn valid_kit(&self) -> ValidKit { self.kit().validate().map_err(|(s, _)| s.to_string()).expect("valid kit") }
}

// ---------------------------------------------------------------------------
// Chain

#[derive(Clone, Debug, Default)]
pub struct Chain {
    pub txs: BTreeMap<XWitnessId, (XWitnessTx, WitnessOrd)>,
    /// Witnesses the resolver fails on.
    pub broken: BTreeSet<XWitnessId>,
    pub log: std::cell::RefCell<Vec<XWitnessId>>,
}

impl Chain {
    pub fn add(&mut self, tx: XWitnessTx, ord: WitnessOrd) -> XWitnessId {
        let id = tx.witness_id();
        self.txs.insert(id, (tx, ord));
        id
    }
    pub fn set(&mut self, id: XWitnessId, ord: WitnessOrd) {
        if let Some(e) = self.txs.get_mut(&id) {
            e.1 = ord
        }
    }
    pub fn ord(&self, id: XWitnessId) -> Option<WitnessOrd> { self.txs.get(&id).map(|e| e.1) }
}

impl ResolveWitness for Chain {
    fn resolve_pub_witness(&self, id: XWitnessId) -> Result<XWitnessTx, WitnessResolverError> {
        self.log.borrow_mut().push(id);
        if self.broken.contains(&id) {
            return Err(WitnessResolverError::Other(id, "connection lost".into()));
        }
        self.txs.get(&id).map(|e| e.0.clone()).ok_or(WitnessResolverError::Unknown(id))
    }
    fn resolve_pub_witness_ord(&self, id: XWitnessId) -> Result<WitnessOrd, WitnessResolverError> {
        self.log.borrow_mut().push(id);
        if self.broken.contains(&id) {
            return Err(WitnessResolverError::Other(id, "connection lost".into()));
        }
        self.txs.get(&id).map(|e| e.1).ok_or(WitnessResolverError::Unknown(id))
    }
}

pub fn mined(layer1: Layer1, height: u32) -> WitnessOrd {
    let h = NonZeroU32::new(height.max(1)).unwrap();
    let ts = 1_600_000_000 + height as i64 * 600;
    match layer1 {
        Layer1::Bitcoin => WitnessOrd::Mined(WitnessPos::bitcoin(h, ts).unwrap()),
        Layer1::Liquid => WitnessOrd::Mined(WitnessPos::liquid(h, ts).unwrap()),
    }
}

// ---------------------------------------------------------------------------
// Transactions

pub fn p2wpkh(seed: u64) -> ScriptPubkey {
    let mut v = vec![0u8, 20];
    v.extend([0u8; 12]);
    v.extend(seed.to_le_bytes());
    ScriptPubkey::from_unsafe(v)
}

pub fn internal_pk() -> InternalPk {
    InternalPk::from_str("c5f93479093e2b8f724a79844cc10928dd44e9a390b539843fb83fbf842723f3").expect("valid key")
}

fn txin(prev_output: Outpoint) -> TxIn {
    TxIn { prev_output, sig_script: SigScript::default(), sequence: SeqNo::from_consensus_u32(0xffff_fffd), witness: none!() }
}

/// A transaction without commitments with `outs` payments.
/// Layout of outputs: 0 is taproot, then `outs` of p2wpkh, the last is OP_RETURN.
pub fn blank_tx(inputs: &[Outpoint], outs: usize, salt: u64) -> Tx {
    let mut outputs = vec![TxOut::new(
        TapretProof { path_proof: TapretPathProof::root(0), internal_pk: internal_pk() }.original_pubkey_script(),
        Sats::from_sats(1000u64),
    )];
    for i in 0..outs {
        outputs.push(TxOut::new(p2wpkh(salt.wrapping_add(i as u64)), Sats::from_sats(1000u64)));
    }
    outputs.push(TxOut::new(ScriptPubkey::from_unsafe(vec![0x6a]), Sats::from_sats(0u64)));
    Tx {
        version: TxVer::V2,
        inputs: Confined::try_from_iter(inputs.iter().copied().map(txin)).unwrap(),
        outputs: Confined::try_from_iter(outputs).unwrap(),
        lock_time: LockTime::from_consensus_u32(0),
    }
}

pub fn commit_opret(tx: &mut Tx, c: &mpc::Commitment) -> OpretProof {
    EmbedCommitVerify::<mpc::Commitment, bp::dbc::opret::OpretFirst>::embed_commit(tx, c).expect("op_return output is present")
}

pub fn commit_tapret(tx: &mut Tx, c: &mpc::Commitment, nonce: u8) -> TapretProof {
    let supp = TapretProof { path_proof: TapretPathProof::root(nonce), internal_pk: internal_pk() };
    let (ntx, proof) = tx.convolve_commit(&supp, c).expect("taproot output is present");
    *tx = ntx;
    proof
}

pub fn mpc_tree(messages: &BTreeMap<ContractId, BundleId>, entropy: u64, min_depth: u8) -> mpc::MerkleTree {
    let src = mpc::MultiSource {
        min_depth: u5::with(min_depth),
        messages: Confined::from_iter_checked(
            messages.iter().map(|(c, b)| (mpc::ProtocolId::from_byte_array(c.to_byte_array()), mpc::Message::from(*b))),
        ),
        static_entropy: Some(entropy),
    };
    mpc::MerkleTree::try_commit(&src).expect("small tree")
}

/// Packs transitions of a batch into bundles and anchors them in a transaction.
pub struct Packed {
    pub layer1: Layer1,
    pub tx: Tx,
    pub witness_id: XWitnessId,
    pub fascia: Fascia,
}

pub fn pack(layer1: Layer1, infos: Vec<TransitionInfo>, outs: usize, salt: u64, extra_inputs: &[Outpoint], extra_msgs: &[(ContractId, BundleId)]) -> Packed {
    let mut inputs: Vec<Outpoint> = vec![];
    for info in &infos {
        for o in info.inputs.iter() {
            let o = *o.as_reduced_unsafe();
            if !inputs.contains(&o) {
                inputs.push(o)
            }
        }
    }
    for o in extra_inputs {
        if !inputs.contains(o) {
            inputs.push(*o)
        }
    }
    inputs.sort();
    pack_with(layer1, infos, &inputs, outs, salt, extra_msgs)
}

pub fn pack_with(layer1: Layer1, infos: Vec<TransitionInfo>, inputs: &[Outpoint], outs: usize, salt: u64, extra_msgs: &[(ContractId, BundleId)]) -> Packed {
    let mut map: BTreeMap<(ContractId, bool), (CloseMethod, BTreeMap<Vin, OpId>, BTreeMap<OpId, Transition>)> = bmap! {};
    for info in infos {
        let key = (info.transition.contract_id, info.method == CloseMethod::OpretFirst);
        let e = map.entry(key).or_insert((info.method, bmap! {}, bmap! {}));
        let id = info.transition.id();
        for o in info.inputs.iter() {
            let vin = inputs.iter().position(|i| i == o.as_reduced_unsafe()).expect("input is present");
            e.1.insert(Vin::from_u32(vin as u32), id);
        }
        e.2.insert(id, info.transition);
    }
    let mut msgs = [BTreeMap::<ContractId, BundleId>::new(), BTreeMap::new()];
    let mut bundles = BTreeMap::<ContractId, Vec<TransitionBundle>>::new();
    for ((contract_id, opret), (close_method, input_map, known)) in map {
        let bundle = TransitionBundle {
            close_method,
            input_map: InputMap::from_inner(Confined::try_from(input_map).unwrap()),
            known_transitions: Confined::try_from(known).unwrap(),
        };
        msgs[opret as usize].insert(contract_id, bundle.bundle_id());
        bundles.entry(contract_id).or_default().push(bundle);
    }
    for m in msgs.iter_mut() {
        if m.is_empty() {
            continue;
        }
        for (c, b) in extra_msgs {
            m.entry(*c).or_insert(*b);
        }
    }
    let mut tx = blank_tx(inputs, outs, salt);
    let tapret = (!msgs[0].is_empty()).then(|| {
        let tree = mpc_tree(&msgs[0], salt, (salt % 4) as u8);
        let proof = commit_tapret(&mut tx, &tree.commit_id(), salt as u8);
        Anchor::new(mpc::MerkleBlock::from(tree), proof)
    });
    let opret = (!msgs[1].is_empty()).then(|| {
        let tree = mpc_tree(&msgs[1], salt ^ 0x5555, (salt % 3) as u8);
        let proof = commit_opret(&mut tx, &tree.commit_id());
        Anchor::new(mpc::MerkleBlock::from(tree), proof)
    });
    let anchor = match (tapret, opret) {
        (Some(tapret), Some(opret)) => AnchorSet::Double { tapret, opret },
        (Some(tapret), None) => AnchorSet::Tapret(tapret),
        (None, Some(opret)) => AnchorSet::Opret(opret),
        (None, None) => panic!("no transitions"),
    };
    let bundles = bundles.into_iter().map(|(id, v)| {
        let mut it = v.into_iter();
        let first = it.next().unwrap();
        (id, BundleDichotomy::with(first, it.next()))
    });
    let fascia = Fascia {
        witness: XChain::with(layer1, PubWitness::with(tx.clone())),
        anchor,
        bundles: NonEmptyOrdMap::try_from(bundles.collect::<BTreeMap<_, _>>()).unwrap(),
    };
    let witness_id: XWitnessId = XChain::with(layer1, tx.txid());
    Packed { layer1, tx, witness_id, fascia }
}

pub fn batch_infos(batch: Batch) -> Vec<TransitionInfo> { batch.into_iter().collect() }

pub fn single_batch(info: TransitionInfo) -> Batch { Batch { main: Dichotomy::single(info), blanks: none!() } }

pub fn txid(n: u64) -> Txid {
    let mut b = [0xA5u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    Txid::from_byte_array(b)
}
