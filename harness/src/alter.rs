//! C18: altered and forged consignments, refused changes.

use std::collections::BTreeSet;

use amplify::confinement::Confined;
use amplify::Wrapper;
use bp::seals::txout::CloseMethod;
use bp::Outpoint;
use commit_verify::Conceal;
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::validation::EAnchor;
use rgb::vm::WitnessOrd;
use rgb::*;
use rgbstd::containers::*;
use rgbstd::persistence::*;
use serde::{Deserialize, Serialize};
use strict_encoding::{StreamReader, StrictDecode, StrictEncode, StrictReader};

use crate::build::*;
use crate::env::*;
use crate::frame::*;
use crate::gen::*;
use crate::mem::*;
use crate::store::*;
use crate::world::*;
use crate::{ensure, fail};

// ---------------------------------------------------------------------------
// Alterations

pub fn decode<T: StrictDecode>(data: &[u8]) -> Option<T> {
    let mut r = StrictReader::with(StreamReader::new::<{ usize::MAX }>(std::io::Cursor::new(data)));
    T::strict_decode(&mut r).ok()
}

/// Another value with a similar encoding.
pub fn mutate<T: StrictEncode + StrictDecode>(v: &T, seed: u64) -> Option<T> {
    let data = strict(v);
    for n in 0..24u64 {
        let x = mix(seed, n);
        let p = (x >> 8) as u32;
        let e = match x % 8 {
            0 => ByteEdit::Set(p, (x >> 40) as u8),
            1 => ByteEdit::Set(p, [0, 1, 2, 0xFF][(x >> 40) as usize % 4]),
            2 => ByteEdit::Delete(p, 1 + (x >> 40) as u8 % 40),
            3 => ByteEdit::Dup(p, 1 + (x >> 40) as u8 % 40),
            _ => ByteEdit::Flip(p, (x >> 40) as u8 % 8),
        };
        let other = apply_byte_edits(&data, &[e]);
        if let Ok(Some(o)) = no_panic(|| decode::<T>(&other)) {
            // data which are not read to the end
            if strict(&o) == other && other != data {
                return Some(o);
            }
        }
    }
    None
}

/// Changes a revealed amount, data, seal or blinded seal.
pub fn mutate_item<Seal: ExposedSeal + StrictEncode + StrictDecode>(a: &mut Assignments<Seal>, seed: u64) -> bool {
    fn go<St: ExposedState + StrictEncode + StrictDecode, Seal: ExposedSeal>(v: &mut [Assign<St, Seal>], seed: u64) -> bool
    where
        Assign<St, Seal>: StrictEncode + StrictDecode,
        St::Concealed: StrictEncode + StrictDecode,
    {
        let n = (seed >> 8) as usize % v.len();
        match mutate(&v[n], seed) {
            Some(x) => {
                v[n] = x;
                true
            }
            None => false,
        }
    }
    let len = a.len();
    if len == 0 {
        return false;
    }
    let t = a.values_mut().nth(seed as usize % len).unwrap();
    let seed = mix(seed, 7);
    match t {
        TypedAssigns::Declarative(v) => {
            let mut x = v.clone().release();
            let res = go(&mut x, seed);
            *v = Confined::try_from(x).unwrap();
            res
        }
        TypedAssigns::Fungible(v) => {
            let mut x = v.clone().release();
            let res = go(&mut x, seed);
            *v = Confined::try_from(x).unwrap();
            res
        }
        TypedAssigns::Structured(v) => {
            let mut x = v.clone().release();
            let res = go(&mut x, seed);
            *v = Confined::try_from(x).unwrap();
            res
        }
        TypedAssigns::Attachment(v) => {
            let mut x = v.clone().release();
            let res = go(&mut x, seed);
            *v = Confined::try_from(x).unwrap();
            res
        }
    }
}

fn add_amount(a: &mut Assignments<GraphSeal>, by: u64) -> bool {
    for t in a.values_mut() {
        if let TypedAssigns::Fungible(v) = t {
            for x in v.iter_mut() {
                if let Assign::Revealed { state, .. } | Assign::ConfidentialSeal { state, .. } = x {
                    let FungibleState::Bits64(n) = state.value;
                    state.value = FungibleState::Bits64(n.wrapping_add(by));
                    return true;
                }
            }
        }
    }
    false
}

/// An operation different from the given one.
fn other_transition(t: &Transition, what: u8, seed: u64, other: ContractId) -> Option<Transition> {
    let mut n = t.clone();
    match what % 9 {
        0 => {
            add_amount(&mut n.assignments, 1 + seed % 9);
        }
        1 => n.nonce = n.nonce.wrapping_add(1 + seed % 3),
        2 => n.contract_id = other,
        3 => n.transition_type = TransitionType::with([TRANSFER, PAY, RECORD, u16::MAX, 77][seed as usize % 5]),
        4 => {
            let mut list = n.inputs.iter().copied().map(|i| i.prev_out).collect::<Vec<_>>();
            let x = seed as usize % list.len();
            match seed >> 8 & 3 {
                0 => list[x].no = list[x].no.wrapping_add(1),
                1 => list[x].ty = AssignmentType::with(list[x].ty.to_inner() ^ 1),
                2 => list[x].op = OpId::from(mutate(&list[x].op, seed)?),
                _ => drop(list.remove(x)),
            }
            n.inputs = Inputs::from_inner(Confined::try_from(list.into_iter().map(Input::with).collect::<BTreeSet<_>>()).ok()?);
        }
        5 | 6 => {
            mutate_item(&mut n.assignments, seed);
        }
        _ => n = mutate(&n, seed)?,
    }
    (n.id() != t.id()).then_some(n)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Alter {
    /// operation and its place: same key, its own id, its own id and in the inputs, in addition to the original
    Operation(u8, u8, u8),
    Genesis,
    GenesisItem,
    Schema,
    InputMap,
    /// no transition for one of the inputs
    Omitted,
    /// a needed bundle is absent
    Dropped,
    Mpc,
    Dbc,
    Witness(u8),
    NoTypes,
    NoScripts,
    Network,
    /// a transaction is not known
    Unresolved,
    Foreign,
    /// another version of a bundle in addition to the original
    Twin(u8),
    Bytes,
    /// valid ones reported with a warning
    Flag,
    Terminal,
    Iface,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Altered {
    pub pick: u8,
    pub at: u8,
    pub alter: Alter,
    pub seed: u64,
    pub edits: Vec<ByteEdit>,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn alter() -> BoxedStrategy<Alter> {
    prop_oneof![
        10 => (any::<u8>(), 0u8..5, any::<u8>()).prop_map(|(a, b, c)| Alter::Operation(a, b, c)),
        1 => Just(Alter::Genesis),
        2 => Just(Alter::GenesisItem),
        1 => Just(Alter::Schema),
        2 => Just(Alter::InputMap),
        1 => Just(Alter::Omitted),
        2 => Just(Alter::Dropped),
        2 => Just(Alter::Mpc),
        2 => Just(Alter::Dbc),
        3 => any::<u8>().prop_map(Alter::Witness),
        1 => Just(Alter::NoTypes),
        1 => Just(Alter::NoScripts),
        1 => Just(Alter::Network),
        1 => Just(Alter::Unresolved),
        1 => Just(Alter::Foreign),
        3 => any::<u8>().prop_map(Alter::Twin),
        6 => Just(Alter::Bytes),
        1 => Just(Alter::Flag),
        1 => Just(Alter::Terminal),
        1 => Just(Alter::Iface),
    ]
    .boxed()
}

/// A bundle with its anchor.
pub type Part = (EAnchor, TransitionBundle);

pub fn parts(wb: &WitnessBundle) -> Vec<Part> { wb.anchored_bundles().map(|(a, b)| (a, b.clone())).collect() }

pub fn bundles(wb: &WitnessBundle) -> Vec<TransitionBundle> { parts(wb).into_iter().map(|p| p.1).collect() }

pub fn join(public: XPubWitness, parts: Vec<Part>) -> Option<WitnessBundle> {
    let mut res: Option<WitnessBundle> = None;
    for (anchor, bundle) in parts {
        use bp::dbc::Proof;
        if anchor.dbc_proof.method() != bundle.close_method {
            return None;
        }
        let cb = ClientBundle::new(anchor.mpc_proof, anchor.dbc_proof, bundle);
        res = Some(match res {
            None => WitnessBundle::with(public.clone(), cb),
            Some(wb) => wb.into_double(cb).ok()?,
        });
    }
    res
}

pub fn put_bundles(t: &mut Transfer, list: Vec<WitnessBundle>) { t.bundles = Confined::try_from(list.into_iter().collect::<BTreeSet<_>>()).unwrap(); }

enum Expect {
    Invalid,
    /// if it is valid, nothing new is learned
    Nothing,
    Warning,
}

/// The altered transfer and what is expected of its validation.
fn alteration(x: &Altered, world: &World, t: &Transfer, others: &[Transfer]) -> Option<(Transfer, Expect, Chain, bool)> {
    let mut n = t.clone();
    let mut chain = Chain { txs: world.chain.txs.clone(), ..Default::default() };
    let mut testnet = world.testnet;
    let mut list = t.bundles.iter().cloned().collect::<Vec<_>>();
    let at = x.at as usize % list.len().max(1);
    let id = t.contract_id();
    let other = world.contracts.iter().map(|c| c.0).find(|c| *c != id);
    let mut expect = Expect::Invalid;
    // changes of a single bundle
    let mut change = |f: &mut dyn FnMut(&mut Part) -> Option<()>| -> Option<()> {
        let wb = list.get(at)?.clone();
        let mut p = parts(&wb);
        let k = (x.seed >> 50) as usize % p.len();
        f(&mut p[k])?;
        list[at] = join(wb.pub_witness.clone(), p)?;
        Some(())
    };
    match x.alter {
        Alter::Operation(what, mode, which) => change(&mut |(_, b)| {
            let key = *b.known_transitions.keys().nth(which as usize % b.known_transitions.len()).unwrap();
            let old = b.known_transitions[&key].clone();
            let new = other_transition(&old, what, x.seed, other.unwrap_or(ContractId::from([7; 32])))?;
            let mut known = b.known_transitions.clone().release();
            let mut inputs = b.input_map.clone().into_inner().release();
            match mode {
                0 => drop(known.insert(key, new)),
                1 => {
                    known.remove(&key);
                    known.insert(new.id(), new);
                }
                2 => {
                    known.remove(&key);
                    for v in inputs.values_mut().filter(|v| **v == key) {
                        *v = new.id();
                    }
                    known.insert(new.id(), new);
                }
                3 => drop(known.insert(new.id(), new)),
                _ => {
                    // the original is under another id
                    known.insert(new.id(), old);
                }
            }
            b.known_transitions = Confined::try_from(known).ok()?;
            b.input_map = InputMap::from_inner(Confined::try_from(inputs).ok()?);
            Some(())
        })?,
        Alter::Genesis => {
            n.genesis = mutate(&t.genesis, x.seed)?;
            if n.genesis.contract_id() == id || list.is_empty() {
                expect = Expect::Nothing;
            }
        }
        Alter::GenesisItem => {
            mutate_item(&mut n.genesis.assignments, x.seed);
            if n.genesis.contract_id() == id || list.is_empty() {
                expect = Expect::Nothing;
            }
        }
        Alter::Schema => {
            n.schema = mutate(&t.schema, x.seed)?;
            if n.schema.schema_id() == t.schema.schema_id() {
                expect = Expect::Nothing;
            }
        }
        Alter::InputMap => change(&mut |(_, b)| {
            let old = b.bundle_id();
            b.input_map = mutate(&b.input_map, x.seed)?;
            (b.bundle_id() != old).then_some(())
        })?,
        Alter::Omitted => change(&mut |(_, b)| {
            let mut known = b.known_transitions.clone().release();
            if known.len() < 2 {
                return None;
            }
            let key = *known.keys().nth(x.seed as usize % known.len()).unwrap();
            known.remove(&key);
            b.known_transitions = Confined::try_from(known).ok()?;
            Some(())
        })?,
        Alter::Dropped => {
            let used = list.iter().flat_map(|wb| bundles(wb).iter().flat_map(|b| b.known_transitions.values().flat_map(|t| t.inputs.iter().map(|i| i.prev_out.op)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<BTreeSet<_>>();
            let needed = list.iter().enumerate().filter(|(_, wb)| bundles(wb).iter().any(|b| b.known_transitions.keys().any(|k| used.contains(k)))).map(|(n, _)| n).collect::<Vec<_>>();
            if needed.is_empty() {
                return None;
            }
            list.remove(needed[x.at as usize % needed.len()]);
        }
        Alter::Mpc => {
            change(&mut |(a, _)| {
                a.mpc_proof = mutate(&a.mpc_proof, x.seed)?;
                Some(())
            })?;
            expect = Expect::Nothing;
        }
        Alter::Dbc => {
            change(&mut |(a, _)| {
                a.dbc_proof = mutate(&a.dbc_proof, x.seed)?;
                Some(())
            })?;
            expect = Expect::Nothing;
        }
        Alter::Witness(what) => {
            if list.is_empty() {
                return None;
            }
            let public = list[at].pub_witness.clone();
            let new = match what % 4 {
                0 => public.map(|w| PubWitness::new(mutate(&w.txid(), x.seed).expect("any bytes are valid"))),
                1 => {
                    let ids = world.txs.iter().map(|t| t.id).filter(|i| *i != public.to_witness_id()).collect::<Vec<_>>();
                    if ids.is_empty() {
                        return None;
                    }
                    ids[x.seed as usize % ids.len()].map(PubWitness::new)
                }
                2 => {
                    // another transaction known to everybody spending the same outputs without commitments
                    let XChain::Bitcoin(_) = public else { return None };
                    let tx = chain.txs[&public.to_witness_id()].0.clone();
                    let tx = tx.map(|mut tx| {
                        let outs = tx.outputs.iter().cloned().filter(|o| !o.script_pubkey.is_op_return()).skip(1).collect::<Vec<_>>();
                        tx.outputs = Confined::try_from(outs).unwrap();
                        tx
                    });
                    let id = chain.add(tx, WitnessOrd::Tentative);
                    id.map(PubWitness::new)
                }
                _ => {
                    // claims to be on the other chain
                    let txid = public.as_reduced_unsafe().txid();
                    match public {
                        XChain::Bitcoin(_) => XChain::Liquid(PubWitness::new(txid)),
                        _ => XChain::Bitcoin(PubWitness::new(txid)),
                    }
                }
            };
            list[at].pub_witness = new;
            // two bundles of the same transaction are the same
            if list.iter().map(|wb| wb.pub_witness.to_witness_id()).collect::<BTreeSet<_>>().len() != list.len() {
                return None;
            }
        }
        Alter::NoTypes => n.types = none!(),
        Alter::NoScripts => {
            let mut libs = n.scripts.clone().release();
            if x.seed & 1 == 0 {
                let lib = libs.iter().nth((x.seed >> 8) as usize % libs.len())?.clone();
                libs.remove(&lib);
            } else {
                libs.clear();
            }
            n.scripts = Confined::try_from(libs).ok()?;
        }
        Alter::Network => testnet = !testnet,
        Alter::Unresolved => {
            let ids = list.iter().map(|wb| wb.pub_witness.to_witness_id()).collect::<Vec<_>>();
            if ids.is_empty() {
                return None;
            }
            let id = ids[x.seed as usize % ids.len()];
            match x.seed >> 8 & 1 {
                0 => drop(chain.txs.remove(&id)),
                _ => drop(chain.broken.insert(id)),
            }
        }
        Alter::Foreign => {
            let foreign = others.iter().filter(|o| o.contract_id() != id).flat_map(|o| o.bundles.iter()).filter(|wb| !list.contains(wb)).cloned().collect::<Vec<_>>();
            if foreign.is_empty() {
                return None;
            }
            list.push(foreign[x.seed as usize % foreign.len()].clone());
        }
        Alter::Twin(what) => {
            let wb = list.get(at)?.clone();
            let mut p = parts(&wb);
            let k = (x.seed >> 50) as usize % p.len();
            let mut public = wb.pub_witness.clone();
            match what % 4 {
                0 => {
                    // another operation under the id of the original
                    let b = &mut p[k].1;
                    let key = *b.known_transitions.keys().next().unwrap();
                    let new = other_transition(&b.known_transitions[&key], what / 4, x.seed, other.unwrap_or(ContractId::from([7; 32])))?;
                    b.known_transitions.insert(key, new).unwrap();
                }
                1 => {
                    let b = &mut p[k].1;
                    let key = *b.known_transitions.keys().next().unwrap();
                    let new = other_transition(&b.known_transitions[&key], what / 4, x.seed, other.unwrap_or(ContractId::from([7; 32])))?;
                    b.known_transitions.insert(new.id(), new).ok()?;
                }
                2 => p[k].0.mpc_proof = mutate(&p[k].0.mpc_proof, x.seed)?,
                _ => {
                    // a transaction which does not commit to the bundle
                    let ids = world.txs.iter().map(|t| t.id).filter(|i| *i != public.to_witness_id()).collect::<Vec<_>>();
                    public = match ids.is_empty() || x.seed & 1 == 1 {
                        true => public.map(|w| PubWitness::new(mutate(&w.txid(), x.seed).expect("any bytes are valid"))),
                        false => ids[x.seed as usize % ids.len()].map(PubWitness::new),
                    };
                }
            }
            list.push(join(public, p)?);
        }
        Alter::Bytes => unreachable!("made from bytes"),
        Alter::Flag => {
            n.transfer = false;
            expect = Expect::Warning;
        }
        Alter::Terminal => {
            n.terminals.insert(BundleId::from([x.at; 32]), XChain::with(world.layer1, SecretSeal::from(Bytes32Of::of(x.seed)))).ok()?;
            expect = Expect::Warning;
        }
        Alter::Iface => {
            let mut m = n.ifaces.clone().release();
            let (iface, mut iimpl) = m.pop_first()?;
            iimpl.iface_id = mutate(&iimpl.iface_id, x.seed)?;
            m.insert(iface, iimpl);
            n.ifaces = Confined::try_from(m).ok()?;
            expect = Expect::Warning;
        }
    }
    put_bundles(&mut n, list);
    Some((n, expect, chain, testnet))
}

struct Bytes32Of;
impl Bytes32Of {
    fn of(n: u64) -> amplify::Bytes32 {
        let mut b = [0x3C; 32];
        b[..8].copy_from_slice(&n.to_le_bytes());
        amplify::Bytes32::from(b)
    }
}

const LEARNED: &[&str] = &["contract ", "secret ", "state ", "bundle ", "operation ", "alloc ", "found ", "assigning "];

/// A stock knowing all the standard definitions.
fn ready(world: &World) -> Res<Stock> {
    let mut stock = fresh(world, 0)?;
    for (_, kit) in envs() {
        stock.import_kit(kit.clone()).map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
    }
    Ok(stock)
}

/// Imports the transfer to a new stock, and then the original.
fn import_altered(n: ValidTransfer, chain: &Chain, world: &World, original: &Transfer) -> Res<Option<Facts>> {
    let mut stock = ready(world)?;
    let before = facts(&stock, false)?;
    let res = frugal("accepting an altered transfer", || stock.accept_transfer(n, chain))?;
    let after = facts(&stock, false)?;
    let import = |stock: &mut Stock| Object::Transfer(original.clone()).import(stock, &world.chain, world.testnet);
    match res {
        Ok(_) => {
            import(&mut stock)?;
            facts(&stock, false)?;
            Ok(Some(after))
        }
        Err(e) => {
            before.same(&after, &format!("stock before and after a refused transfer ({e})"))?;
            import(&mut stock)?;
            let mut control = ready(world)?;
            import(&mut control)?;
            facts(&control, false)?.same(&facts(&stock, false)?, &format!("stock without and with a refused transfer ({e})"))?;
            Ok(None)
        }
    }
}

fn altered(x: &Altered, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let world = run_history(&h, Flags::default(), cov, |_, _| Ok(()))?;
    let mut list = vec![];
    for (is_transfer, data) in &world.sent {
        let t = match is_transfer {
            true => from_bytes::<Transfer>(data.clone()).map_err(|e| Fail::new(format!("transfer is not readable: {e}")))?,
            false => continue,
        };
        if t.bundled_witnesses().all(|b| world.alive(b.pub_witness.to_witness_id())) {
            list.push(t);
        }
    }
    let good = list.iter().filter(|t| !t.bundles.is_empty()).collect::<Vec<_>>();
    let t = match (good.len(), list.len()) {
        (0, 0) => return Ok(()),
        (0, n) => &list[x.pick as usize % n],
        (n, _) => good[x.pick as usize % n],
    };
    let original = t.clone().validate(&world.chain, world.testnet).map_err(|(s, _)| Fail::new(format!("transfer is not valid: {s}")))?;
    let name = format!("{:?}", x.alter);
    let name = name.split('(').next().unwrap();
    let (n, expect, chain, testnet) = if x.alter == Alter::Bytes {
        let data = to_bytes(t);
        let data = apply_byte_edits(&data, &x.edits);
        let Ok(n) = frugal("reading an altered transfer", || from_bytes::<Transfer>(data))? else { return Ok(()) };
        if to_bytes(&n) == to_bytes(t) {
            return Ok(());
        }
        (n, Expect::Nothing, Chain { txs: world.chain.txs.clone(), ..Default::default() }, world.testnet)
    } else {
        let Some(a) = alteration(x, &world, t, &list) else { return Ok(()) };
        a
    };
    cov.class(name);
    cov.nontrivial_if(!t.bundles.is_empty());
    let same_contract = n.contract_id() == t.contract_id();
    match (expect, frugal("validating an altered transfer", || n.validate(&chain, testnet))?) {
        (Expect::Invalid, Ok(v)) => {
            // what would be learned
            let mut stock = ready(&world)?;
            let res = no_panic(|| stock.accept_transfer(v, &chain).map(drop).map_err(|e| e.to_string()));
            fail!("altered transfer is valid: {:?}; its import {res:?}", x.alter)
        }
        (Expect::Warning, Err((s, _))) => fail!("transfer which differs in {name} is refused: {s}"),
        (Expect::Warning, Ok(v)) => {
            ensure!(!v.validation_status().warnings.is_empty(), "transfer which differs in {name} is valid without warnings");
            cov.class("valid-with-warning");
            import_altered(v, &chain, &world, t)?;
        }
        (Expect::Nothing, Ok(v)) => {
            cov.class("valid");
            if let Some(learned) = import_altered(v, &chain, &world, t)? {
                if same_contract {
                    let mut stock = ready(&world)?;
                    stock.accept_transfer(original, &world.chain).map_err(|e| Fail::new(format!("transfer was not accepted: {e}")))?;
                    let known = facts(&stock, false)?;
                    let new = learned.only(LEARNED).difference(&known.only(LEARNED)).take(5).cloned().collect::<Vec<_>>();
                    ensure!(new.is_empty(), "altered transfer ({name}) adds {new:#?}");
                }
            }
        }
        (_, Err((status, _))) => {
            ensure!(!status.failures.is_empty() || !status.warnings.is_empty(), "invalid transfer is reported without a reason");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Forgeries: properly committed but wrong operations

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Forge {
    Honest,
    /// the transaction spends another output
    OtherOutput,
    Inflated,
    UnknownType,
    OtherContract,
    /// an input which does not exist
    NoInput(u8),
    /// two operations of a bundle spend the same state
    DoubleSpend,
    /// proof for another contract
    Protocol,
    /// closing method of the seals and of the commitment are different
    Method,
    /// committed as it is
    Mutated(u8),
    /// seal on the other chain
    OtherChain,
    /// the same operation in two transactions
    Replay,
    UnknownState,
    UnknownGlobal,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Forged {
    pub w: u8,
    pub pick: u8,
    pub forge: Forge,
    pub seed: u64,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn forge() -> BoxedStrategy<Forge> {
    prop_oneof![
        2 => Just(Forge::Honest),
        2 => Just(Forge::OtherOutput),
        2 => Just(Forge::Inflated),
        1 => Just(Forge::UnknownType),
        1 => Just(Forge::OtherContract),
        2 => any::<u8>().prop_map(Forge::NoInput),
        4 => Just(Forge::DoubleSpend),
        1 => Just(Forge::Protocol),
        2 => Just(Forge::Method),
        4 => any::<u8>().prop_map(Forge::Mutated),
        2 => Just(Forge::OtherChain),
        2 => Just(Forge::Replay),
        1 => Just(Forge::UnknownState),
        1 => Just(Forge::UnknownGlobal),
    ]
    .boxed()
}

/// The witness bundle of the contract in a transaction.
fn bundle_of(packed: &Packed, id: ContractId) -> Option<WitnessBundle> {
    let mut list = vec![];
    for b in packed.fascia.bundles.get(&id)?.iter() {
        let a = match (&packed.fascia.anchor, b.close_method) {
            (AnchorSet::Tapret(tapret) | AnchorSet::Double { tapret, .. }, CloseMethod::TapretFirst) => {
                EAnchor::new(tapret.mpc_proof.to_merkle_proof(id.into()).ok()?, rgb::validation::DbcProof::Tapret(tapret.dbc_proof.clone()))
            }
            (AnchorSet::Opret(opret) | AnchorSet::Double { opret, .. }, CloseMethod::OpretFirst) => {
                EAnchor::new(opret.mpc_proof.to_merkle_proof(id.into()).ok()?, rgb::validation::DbcProof::Opret(opret.dbc_proof))
            }
            _ => return None,
        };
        list.push((a, b.clone()));
    }
    join(packed.fascia.witness.clone(), list)
}

fn forged(x: &Forged, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let mut world = run_history(&h, Flags::default(), cov, |_, _| Ok(()))?;
    let w = x.w as usize % WALLETS;
    world.sync(w, 0, 0)?;
    // states which may be spent together
    let all = world.spendable(w);
    let list = all.iter().filter(|s| world.provable(w, s.0, [s.1.op])).cloned().collect::<Vec<_>>();
    if list.is_empty() {
        return Ok(());
    }
    let target = list[x.pick as usize % list.len()].clone();
    let id = target.0;
    let method = target.2.as_reduced_unsafe().method;
    let same = list.iter().filter(|s| s.0 == id && s.2.as_reduced_unsafe().method == method).cloned().collect::<Vec<_>>();
    let seals = same.iter().map(|s| s.2).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
    let mut t = total("making a transfer", || world.wallets[w].stock.transfer(id, &seals, None))?.map_err(|e| Fail::new(format!("transfer was not made: {e}")))?;
    let original = t.clone();
    let seed = x.seed;
    let seal = |n: u64| -> XChain<GraphSeal> { XChain::with(world.layer1, GraphSeal::with_blinded_vout(method, 1, mix(seed, n))) };
    let iface = envs()[world.contracts.iter().find(|c| c.0 == id).unwrap().1].0.iface.name.clone();
    let bad = |e: &dyn std::fmt::Display| Fail::new(format!("building a transition was refused: {e}"));
    // moves the given states to new outputs
    let make = |states: &[&(ContractId, Opout, XOutputSeal, PersistedState)], op: &'static str, n: u64| -> Res<Transition> {
        let mut b = world.wallets[w].stock.transition_builder(id, iface.clone(), Some(fname(op))).map_err(|e| bad(&e))?;
        b = b.set_nonce(mix(seed, n) % 1000);
        for (k, (_, opout, _, state)) in states.iter().enumerate() {
            b = b.add_input(*opout, state.clone()).map_err(|e| bad(&e))?;
            b = b.add_owned_state_raw(opout.ty, seal(n + k as u64), state.clone()).map_err(|e| bad(&e))?;
        }
        b.complete_transition().map_err(|e| bad(&e))
    };
    let at = |s: &XOutputSeal| outpoint(*s);
    let together = same.iter().filter(|s| at(&s.2) == at(&target.2)).collect::<Vec<_>>();
    let other = same.iter().find(|s| at(&s.2) != at(&target.2));
    let info = |t: Transition, seals: Vec<XOutputSeal>| -> Res<TransitionInfo> { TransitionInfo::new(t, seals).map_err(|e| Fail::new(format!("transition info was refused: {e}"))) };
    let unspent = XChain::with(world.layer1, bp::seals::txout::ExplicitSeal { method, txid: txid(0xF0F0 + seed % 8), vout: 0u32.into() });
    let pays = target.1.ty.to_inner() == ASSET && together.iter().all(|s| s.1.ty.to_inner() == ASSET) && !matches!(target.3, PersistedState::Void);
    let base = make(&together, if pays && seed & 1 == 1 { "pay" } else { "transfer" }, 100)?;
    let mut invalid = true;
    let mut msgs = vec![];
    let mut inputs: Vec<Outpoint> = vec![at(&target.2)];
    let mut infos = vec![];
    match x.forge {
        Forge::Honest => {
            invalid = false;
            infos.push(info(base, vec![target.2])?);
        }
        Forge::OtherOutput => {
            inputs = vec![at(&unspent)];
            infos.push(info(base, vec![unspent])?);
        }
        Forge::Inflated => {
            if !pays {
                return Ok(());
            }
            let mut t = make(&together, "pay", 100)?;
            if !add_amount(&mut t.assignments, [1, 2, 1 << 40, u64::MAX][seed as usize / 2 % 4]) {
                return Ok(());
            }
            infos.push(info(t, vec![target.2])?);
        }
        Forge::UnknownType => {
            let mut t = base;
            t.transition_type = TransitionType::with(700 + (seed % 100) as u16);
            infos.push(info(t, vec![target.2])?);
        }
        Forge::OtherContract => {
            let Some(c) = world.contracts.iter().map(|c| c.0).find(|c| *c != id) else { return Ok(()) };
            let mut t = base;
            t.contract_id = c;
            infos.push(info(t, vec![target.2])?);
        }
        Forge::NoInput(what) => {
            let mut t = base;
            let mut list = t.inputs.iter().map(|i| i.prev_out).collect::<Vec<_>>();
            let n = seed as usize % list.len();
            match what % 3 {
                0 => list[n].no = list[n].no.wrapping_add(0x100),
                1 => list[n].ty = AssignmentType::with(0x7777),
                _ => list[n].op = OpId::from(mutate(&list[n].op, seed).unwrap_or(list[n].op)),
            }
            if what & 4 == 4 {
                // an addition to the valid ones
                list.extend(t.inputs.iter().map(|i| i.prev_out));
            }
            t.inputs = Inputs::from_inner(Confined::try_from(list.into_iter().map(Input::with).collect::<BTreeSet<_>>()).unwrap());
            infos.push(info(t, vec![target.2])?);
        }
        Forge::DoubleSpend => {
            let Some(other) = other else { return Ok(()) };
            let mut both = together.clone();
            both.push(other);
            let second = make(&both, "transfer", 200)?;
            inputs.push(at(&other.2));
            if seed & 2 == 2 {
                inputs.reverse();
            }
            infos.push(info(base, vec![target.2])?);
            infos.push(info(second, vec![other.2])?);
        }
        Forge::Protocol => infos.push(info(base, vec![target.2])?),
        Forge::Method => {
            let other = match method {
                CloseMethod::TapretFirst => CloseMethod::OpretFirst,
                CloseMethod::OpretFirst => CloseMethod::TapretFirst,
            };
            let mut i = info(base, vec![target.2])?;
            i.method = other;
            infos.push(i);
        }
        Forge::Mutated(what) => {
            invalid = false;
            let Some(t) = other_transition(&base, what, seed, id) else { return Ok(()) };
            infos.push(info(t, vec![target.2])?);
        }
        Forge::OtherChain => {
            invalid = false;
            let mut t = base;
            for a in t.assignments.values_mut() {
                if let TypedAssigns::Fungible(v) = a {
                    for a in v.iter_mut() {
                        if let Assign::Revealed { seal, .. } = a {
                            *seal = match *seal {
                                XChain::Bitcoin(s) => XChain::Liquid(s),
                                XChain::Liquid(s) => XChain::Bitcoin(s),
                                s => s,
                            };
                        }
                    }
                }
            }
            infos.push(info(t, vec![target.2])?);
        }
        Forge::Replay => {
            invalid = false;
            infos.push(info(base, vec![target.2])?);
        }
        Forge::UnknownState => {
            let mut t = base;
            let Some((k, v)) = t.assignments.iter().next().map(|(k, v)| (*k, v.clone())) else { return Ok(()) };
            t.assignments.remove(&k).unwrap();
            t.assignments.insert(AssignmentType::with(0x6666), v).unwrap();
            infos.push(info(t, vec![target.2])?);
        }
        Forge::UnknownGlobal => {
            let mut t = base;
            t.globals.add_state(GlobalStateType::with(0x6666), DataState::from(Confined::try_from(vec![1u8; 8]).unwrap())).unwrap();
            infos.push(info(t, vec![target.2])?);
        }
    }
    if seed & 4 == 4 {
        msgs.push((ContractId::from([0x55; 32]), BundleId::from([seed as u8; 32])));
    }
    let packed = pack_with(world.layer1, infos.clone(), &inputs, 3, mix(seed, 9), &msgs);
    let mut chain = Chain { txs: world.chain.txs.clone(), ..Default::default() };
    let mut add = |p: &Packed| chain.add(XChain::with(world.layer1, p.tx.clone()), if seed & 8 == 8 { WitnessOrd::Tentative } else { mined(world.layer1, 500) });
    add(&packed);
    let key = infos[0].transition.contract_id;
    let mut list = t.bundles.iter().cloned().collect::<Vec<_>>();
    match x.forge {
        Forge::Protocol => {
            // the commitment is made for another contract
            let fake = ContractId::from([0x77; 32]);
            let Some(wb) = bundle_of(&packed, key) else { return Ok(()) };
            let b = bundles(&wb)[0].bundle_id();
            let packed = pack_committed(&packed, fake, b, mix(seed, 10));
            add(&packed);
            let mut p = parts(&wb);
            let Some((mpc, dbc)) = anchor_for(&packed, fake) else { return Ok(()) };
            p[0].0 = EAnchor::new(mpc, dbc);
            let Some(wb) = join(packed.fascia.witness.clone(), p) else { return Ok(()) };
            list.push(wb);
        }
        Forge::Replay => {
            list.push(bundle_of(&packed, key).expect("own bundle"));
            let packed = pack_with(world.layer1, infos, &inputs, 4, mix(seed, 11), &msgs);
            add(&packed);
            list.push(bundle_of(&packed, key).expect("own bundle"));
        }
        _ => list.push(bundle_of(&packed, key).expect("own bundle")),
    }
    put_bundles(&mut t, list);
    let name = format!("{:?}", x.forge);
    cov.class(name.split('(').next().unwrap());
    cov.nontrivial_if(true);
    match frugal("validating a forged transfer", || t.validate(&chain, world.testnet))? {
        Ok(v) => {
            ensure!(!invalid, "forged transfer is valid: {:?}", x.forge);
            cov.class("valid");
            import_altered(v, &chain, &world, &original)?;
        }
        Err((s, _)) => {
            ensure!(x.forge != Forge::Honest, "honest transfer is not valid: {s}");
        }
    }
    Ok(())
}

fn anchor_for(packed: &Packed, id: ContractId) -> Option<(commit_verify::mpc::MerkleProof, rgb::validation::DbcProof)> {
    Some(match &packed.fascia.anchor {
        AnchorSet::Tapret(a) => (a.mpc_proof.to_merkle_proof(id.into()).ok()?, rgb::validation::DbcProof::Tapret(a.dbc_proof.clone())),
        AnchorSet::Opret(a) => (a.mpc_proof.to_merkle_proof(id.into()).ok()?, rgb::validation::DbcProof::Opret(a.dbc_proof)),
        _ => return None,
    })
}

/// A transaction with the same inputs committing to the message for the given contract only.
fn pack_committed(packed: &Packed, id: ContractId, bundle: BundleId, salt: u64) -> Packed {
    let inputs = packed.tx.inputs.iter().map(|i| i.prev_output).collect::<Vec<_>>();
    let mut tx = blank_tx(&inputs, 3, salt);
    let tree = mpc_tree(&bmap! { id => bundle }, salt, 1);
    let anchor = match &packed.fascia.anchor {
        AnchorSet::Tapret(_) => {
            let p = commit_tapret(&mut tx, &commit_verify::CommitId::commit_id(&tree), salt as u8);
            AnchorSet::Tapret(bp::dbc::Anchor::new(commit_verify::mpc::MerkleBlock::from(tree), p))
        }
        _ => {
            let p = commit_opret(&mut tx, &commit_verify::CommitId::commit_id(&tree));
            AnchorSet::Opret(bp::dbc::Anchor::new(commit_verify::mpc::MerkleBlock::from(tree), p))
        }
    };
    let mut fascia = packed.fascia.clone();
    fascia.witness = XChain::with(packed.layer1, PubWitness::with(tx.clone()));
    fascia.anchor = anchor;
    Packed { layer1: packed.layer1, witness_id: XChain::with(packed.layer1, tx.txid()), tx, fascia }
}

// ---------------------------------------------------------------------------
// Refused changes

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refusals {
    pub wallet: u8,
    pub what: u8,
    pub picks: Vec<(u8, u64)>,
    pub seed: u64,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn refusals(x: &Refusals, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let mut world = run_history(&h, Flags { keep: true, ..Default::default() }, cov, |_, _| Ok(()))?;
    let w = x.wallet as usize % WALLETS;
    let kept = world.kept.take();
    let mut list = objects(&world, &x.picks)?;
    let last = list.pop().expect("at least one object");
    let mut stock = fresh(&world, w)?;
    for o in &list {
        o.import(&mut stock, &world.chain, world.testnet)?;
    }
    let before = facts(&stock, false)?;
    let mut control = clone_stock(&stock)?;
    let invalid = |s: &rgb::validation::Status| Fail::new(format!("object is not valid: {s}"));
    let mut chain = Chain { txs: world.chain.txs.clone(), ..Default::default() };
    let mut then: Option<Object> = Some(last.clone());
    let res: Result<(), String>;
    let name;
    match (x.what % 6, &last) {
        (0 | 1, Object::Transfer(t)) => {
            let ids = t.bundled_witnesses().map(|b| b.pub_witness.to_witness_id()).collect::<Vec<_>>();
            if ids.is_empty() {
                return Ok(());
            }
            let id = ids[x.seed as usize % ids.len()];
            let v = t.clone().validate(&chain, world.testnet).map_err(|(s, _)| invalid(&s))?;
            chain.broken.insert(id);
            name = "transfer-unresolved";
            res = total("accepting a transfer", || stock.accept_transfer(v, &chain))?.map(drop).map_err(|e| e.to_string());
        }
        (2, _) => {
            let Some((kept, fascia)) = kept else { return Ok(()) };
            // the contract is not known
            if before.only(&["contract "]).is_empty() || x.seed & 1 == 1 {
                name = "own-unknown-contract";
                stock = fresh(&world, w)?;
                control = fresh(&world, w)?;
                for (_, kit) in envs() {
                    stock.import_kit(kit.clone()).map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
                    control.import_kit(kit.clone()).map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
                }
            } else {
                name = "own-unresolved";
                stock = clone_stock(&kept)?;
                control = kept;
                chain.broken.insert(fascia.witness_id());
                then = None;
            }
            let before = facts(&stock, false)?;
            let res = total("consuming own transaction", || stock.consume_fascia(fascia.clone(), &chain))?;
            cov.class_if(res.is_err(), name);
            cov.nontrivial_if(res.is_err());
            if res.is_err() {
                before.same(&facts(&stock, false)?, &format!("stock before and after a refused transaction ({name})"))?;
                if name == "own-unresolved" {
                    stock.consume_fascia(fascia.clone(), &world.chain).map_err(|e| Fail::new(format!("own transaction was refused after a failure: {e}")))?;
                    control.consume_fascia(fascia, &world.chain).map_err(|e| Fail::new(format!("own transaction was refused: {e}")))?;
                }
                if let Some(o) = then {
                    o.import(&mut stock, &world.chain, world.testnet)?;
                    o.import(&mut control, &world.chain, world.testnet)?;
                }
                facts(&control, false)?.same(&facts(&stock, false)?, &format!("stock without and with a refused transaction ({name})"))?;
            } else if name == "own-unknown-contract" {
                // nothing can be said about operations of an unknown contract
                for c in fascia.bundles.keys() {
                    ensure!(stock.contract_state(*c).is_err(), "contract which is not known is reported");
                }
            }
            return Ok(());
        }
        (3, _) => {
            // kits with an implementation of something unknown
            let env = &envs()[x.seed as usize % 2].0;
            let mut kit = kit_part(env, None, x.seed >> 4);
            let mut i = env.iimpl.clone();
            name = if x.seed & 2 == 2 {
                i.schema_id = mutate(&i.schema_id, x.seed).expect("any bytes");
                "kit-unknown-schema"
            } else {
                i.iface_id = mutate(&i.iface_id, x.seed).expect("any bytes");
                "kit-unknown-interface"
            };
            kit.iimpls.push(i).unwrap();
            let k = kit.validate().map_err(|(s, _)| invalid(&s))?;
            res = total("importing a kit", || stock.import_kit(k))?.map(drop).map_err(|e| e.to_string());
            ensure!(res.is_err(), "kit with an implementation of something unknown is imported");
        }
        (4, Object::Transfer(t)) => {
            // an implementation of an interface which is absent
            let mut t = t.clone();
            let mut m = t.ifaces.clone().release();
            let Some((iface, mut i)) = m.pop_first() else { return Ok(()) };
            i.iface_id = mutate(&i.iface_id, x.seed).expect("any bytes");
            m.insert(iface, i);
            t.ifaces = Confined::try_from(m).unwrap();
            let v = t.validate(&chain, world.testnet).map_err(|(s, _)| invalid(&s))?;
            name = "transfer-unknown-interface";
            res = total("accepting a transfer", || stock.accept_transfer(v, &chain))?.map(drop).map_err(|e| e.to_string());
            ensure!(res.is_err(), "transfer with an implementation of an unknown interface is accepted");
        }
        (5, _) => {
            // the same operation with its input in another place
            let Some((kept, fascia)) = kept else { return Ok(()) };
            stock = clone_stock(&kept)?;
            stock.consume_fascia(fascia.clone(), &world.chain).map_err(|e| Fail::new(format!("own transaction was refused: {e}")))?;
            control = clone_stock(&stock)?;
            let before = facts(&stock, false)?;
            let infos = world.txs.iter().find(|t| t.id == fascia.witness_id()).map(|t| t.infos.clone()).expect("own transaction");
            let mut inputs = vec![Outpoint::new(txid(0xABCD), 0u32)];
            for i in &infos {
                for o in i.inputs.iter() {
                    if !inputs.contains(o.as_reduced_unsafe()) {
                        inputs.push(*o.as_reduced_unsafe());
                    }
                }
            }
            let packed = pack_with(world.layer1, infos, &inputs, 6, x.seed, &[]);
            let id = chain.add(XChain::with(world.layer1, packed.tx.clone()), WitnessOrd::Tentative);
            ensure!(id == packed.witness_id, "harness: transaction id");
            let res = total("consuming own transaction", || stock.consume_fascia(packed.fascia.clone(), &chain))?;
            cov.class(if res.is_err() { "repacked-refused" } else { "repacked-accepted" });
            cov.nontrivial_if(true);
            if res.is_err() {
                before.same(&facts(&stock, false)?, "stock before and after a refused transaction")?;
                if let Object::Kit(_) = last {
                    last.import(&mut stock, &world.chain, world.testnet)?;
                    last.import(&mut control, &world.chain, world.testnet)?;
                }
                facts(&control, false)?.same(&facts(&stock, false)?, "stock without and with a refused transaction")?;
            } else {
                facts(&stock, false)?;
            }
            return Ok(());
        }
        _ => return Ok(()),
    }
    cov.class(if res.is_err() { name } else { "not-refused" });
    if let Err(e) = res {
        before.same(&facts(&stock, false)?, &format!("stock before and after a refusal ({name}, {e})"))?;
        if let Some(o) = then {
            o.import(&mut stock, &world.chain, world.testnet)?;
            o.import(&mut control, &world.chain, world.testnet)?;
        }
        facts(&control, false)?.same(&facts(&stock, false)?, &format!("stock without and with a refused change ({name}, {e})"))?;
        cov.nontrivial_if(true);
    }
    Ok(())
}

/// A small history with a transfer.
pub fn sample_world() -> Res<World> {
    let part = |to| PartG { blinded: false, frac: 128, opret: false, same: false, to };
    let steps = vec![
        Step::Issue { w: 0, env: 0, allocs: vec![(0, false, false, StateG::Amount(1000, 7))], logs: vec![], seed: 5 },
        Step::Split { w: 0, pick: 0, mask: 0, parts: vec![part(1)], logs: vec![], each: false, seed: 6 },
        Step::Deliver { ix: 0, bytes: false, third: false, veil: None },
    ];
    let h = History { liquid: false, testnet: false, steps };
    run_history(&h, Flags::default(), &mut Cov::default(), |_, _| Ok(()))
}

/// Data having a transaction which claims to have a lot of inputs.
pub fn claim_length(data: &[u8], world: &World) -> Vec<u8> {
    let mut res = data.to_vec();
    for (tx, _) in world.chain.txs.values() {
        let tx = strict(tx.as_reduced_unsafe());
        if let Some(at) = data.windows(tx.len()).position(|w| w == tx) {
            res[at + 4..at + 8].copy_from_slice(&[0xFF, 0xFF, 0xFF, 0x0F]);
        }
    }
    res
}

pub fn concealed_amounts(g: &mut Genesis) {
    for a in g.assignments.values_mut() {
        if let TypedAssigns::Fungible(v) = a {
            for a in v.iter_mut() {
                *a = a.conceal();
            }
        }
    }
}

fn read_sample(f: impl FnOnce(&World, Transfer) -> Vec<u8>) -> Res {
    let world = sample_world()?;
    let t = from_bytes::<Transfer>(world.sent.last().expect("a transfer").1.clone()).map_err(Fail::new)?;
    let data = f(&world, t);
    let res = frugal("reading an altered transfer", || from_bytes::<Transfer>(data).map(drop))?;
    ensure!(res.is_err(), "altered transfer is read");
    Ok(())
}

pub fn claimed_length() -> Res {
    read_sample(|world, mut t| {
        let mut list = t.bundles.iter().cloned().collect::<Vec<_>>();
        for wb in list.iter_mut() {
            wb.pub_witness = world.chain.txs[&wb.witness_id()].0.clone().map(PubWitness::with);
        }
        put_bundles(&mut t, list);
        claim_length(&to_bytes(&t), world)
    })
}

pub fn concealed_amount() -> Res {
    read_sample(|_, mut t| {
        concealed_amounts(&mut t.genesis);
        to_bytes(&t)
    })
}

pub fn c18(ctx: &Ctx) {
    ctx.probe("claimed-length", claimed_length);
    ctx.probe("concealed-amount", concealed_amount);
    ctx.rule("altered transfers with at least one transaction, forged operations committed to a transaction, refused changes");
    let x = Weights { deliver: 10, split: 5, send: 5, share: 0, sync: 1, again: 0, replace: 0, drop: 0, reload: 0, ..EVEN };
    ctx.check("altered", 1800, 60000, || {
        (any::<u8>(), any::<u8>(), alter(), any::<u64>(), vec(byte_edit(), 1..3), busy(x, 6)).prop_map(|(pick, at, alter, seed, edits, h)| Altered {
            pick,
            at,
            alter,
            seed,
            edits,
            liquid: h.liquid,
            testnet: h.testnet,
            steps: h.steps,
        })
    }, altered);
    ctx.check("forged", 1300, 40000, || {
        (0u8..3, any::<u8>(), forge(), any::<u64>(), busy(x, 6)).prop_map(|(w, pick, forge, seed, h)| Forged {
            w,
            pick,
            forge,
            seed,
            liquid: h.liquid,
            testnet: h.testnet,
            steps: h.steps,
        })
    }, forged);
    ctx.check("refused", 600, 15000, || {
        (imports(x, 10), any::<u8>()).prop_map(|(i, what)| Refusals {
            wallet: i.wallet,
            what,
            picks: i.picks,
            seed: i.order,
            liquid: i.liquid,
            testnet: i.testnet,
            steps: i.steps,
        })
    }, refusals);
}
