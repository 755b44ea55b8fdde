//! C16: the index on its own, filled with assignments in all the forms.

use std::collections::{BTreeMap, BTreeSet};

use bp::seals::txout::CloseMethod;
use commit_verify::Conceal;
use proptest::prelude::*;
use rgb::vm::XWitnessId;
use rgb::*;
use rgbstd::persistence::{IndexReadProvider, IndexWriteProvider, MemIndex};
use serde::{Deserialize, Serialize};

use crate::env::*;
use crate::frame::*;
use crate::{ensure, ensure_eq};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    /// 0 all blinded, 1 known, 2 blinded seal, 3 concealed state.
    form: u8,
    seal: u8,
    /// Seal over the output of the witness.
    own: bool,
    tapret: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Put {
    Contract { contract: u8 },
    Bundle { bundle: u8, witness: u8, contract: u8 },
    Operation { op: u8, bundle: u8 },
    Genesis { contract: u8, ty: u8, data: bool, items: Vec<Item> },
    Transition { contract: u8, op: u8, ty: u8, witness: u8, data: bool, items: Vec<Item> },
}

fn put() -> impl Strategy<Value = Put> {
    let item = || {
        prop::collection::vec(
            (0..4u8, 0..4u8, any::<bool>(), any::<bool>()).prop_map(|(form, seal, own, tapret)| Item { form, seal, own, tapret }),
            1..5,
        )
    };
    prop_oneof![
        5 => (0..3u8).prop_map(|contract| Put::Contract { contract }),
        2 => (0..4u8, 0..3u8, 0..3u8).prop_map(|(bundle, witness, contract)| Put::Bundle { bundle, witness, contract }),
        2 => (0..4u8, 0..4u8).prop_map(|(op, bundle)| Put::Operation { op, bundle }),
        2 => (0..3u8, 0..3u8, any::<bool>(), item()).prop_map(|(contract, ty, data, items)| Put::Genesis { contract, ty, data, items }),
        5 => (0..3u8, 0..4u8, 0..3u8, 0..3u8, any::<bool>(), item())
            .prop_map(|(contract, op, ty, witness, data, items)| Put::Transition { contract, op, ty, witness, data, items }),
    ]
}

fn method(tapret: bool) -> CloseMethod { if tapret { CloseMethod::TapretFirst } else { CloseMethod::OpretFirst } }
fn contract_id(n: u8) -> ContractId { ContractId::from([n + 1; 32]) }
fn witness_id(n: u8) -> XWitnessId { XChain::Bitcoin(txid(0x1000 + n as u64)) }
fn bundle_id(n: u8) -> BundleId { BundleId::from([n + 0x41; 32]) }
fn op_id(n: u8) -> OpId { OpId::from([n + 0x81; 32]) }

fn genesis_seal(i: &Item) -> XChain<GenesisSeal> {
    XChain::Bitcoin(GenesisSeal::with_blinding(method(i.tapret), txid(0x2000 + (i.seal / 2) as u64), i.seal as u32 % 2, 7))
}
fn graph_seal(i: &Item) -> XChain<GraphSeal> {
    XChain::Bitcoin(match i.own {
        true => GraphSeal::with_blinded_vout(method(i.tapret), i.seal as u32, 7),
        false => GraphSeal::with_blinding(method(i.tapret), txid(0x2000 + (i.seal / 2) as u64), i.seal as u32 % 2, 7),
    })
}

fn assign<S: ExposedState + Clone, X: ExposedSeal>(form: u8, seal: XChain<X>, state: S) -> Assign<S, X> {
    let lock = Default::default();
    match form {
        0 => Assign::Confidential { seal: seal.conceal(), state: state.conceal(), lock },
        1 => Assign::Revealed { seal, state, lock },
        2 => Assign::ConfidentialSeal { seal: seal.conceal(), state, lock },
        _ => Assign::ConfidentialState { seal, state: state.conceal(), lock },
    }
}

type Outs = BTreeSet<Opout>;

#[derive(Default)]
struct Known {
    contracts: BTreeSet<ContractId>,
    bundles: BTreeMap<BundleId, (ContractId, BTreeSet<XWitnessId>)>,
    ops: BTreeMap<OpId, BundleId>,
    places: BTreeMap<(ContractId, XOutpoint), Outs>,
    secrets: BTreeMap<XChain<SecretSeal>, Outs>,
}

impl Known {
    fn add(&mut self, contract: ContractId, op: OpId, ty: u8, n: usize, form: u8, place: XOutpoint, secret: XChain<SecretSeal>) {
        let opout = Opout::new(op, AssignmentType::with(ty as u16), n as u16);
        match form {
            0 | 2 => self.secrets.entry(secret).or_default().insert(opout),
            _ => self.places.entry((contract, place)).or_default().insert(opout),
        };
    }
}

fn check(index: &MemIndex, known: &Known) -> Res {
    let e = |e: &dyn std::fmt::Display| Fail::new(format!("lookup fails: {e}"));
    let outs = known.places.keys().map(|(_, o)| *o).collect::<BTreeSet<_>>();
    for o in outs.iter().copied().map(|o| bset![o]).chain([outs.clone(), bset! {}]) {
        let mut got = index.contracts_assigning(o.clone()).map_err(|x| e(&x))?.collect::<Vec<_>>();
        got.sort();
        let want = known.places.keys().filter(|(_, p)| o.contains(p)).map(|(c, _)| *c).collect::<BTreeSet<_>>();
        ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "contracts having state at {:?}", o);
    }
    for c in (0..3).map(contract_id) {
        let mine = known.places.keys().filter(|(id, _)| *id == c).map(|(_, o)| *o).collect::<BTreeSet<_>>();
        for o in mine.iter().copied().map(|o| bset![o]).chain([mine.clone()]) {
            let got = index.opouts_by_outputs(c, o.iter().copied());
            if !known.contracts.contains(&c) {
                ensure!(got.is_err(), "assignments of an unknown contract are found");
                continue;
            }
            let want = known.places.iter().filter(|((id, p), _)| *id == c && o.contains(p)).flat_map(|(_, s)| s.iter().copied()).collect::<Outs>();
            ensure_eq!(got.map_err(|x| e(&x))?, want, "assignments at {:?}", o);
        }
    }
    for s in known.secrets.keys().map(|s| bset![*s]).chain([known.secrets.keys().copied().collect(), bset! {}]) {
        let got = index.opouts_by_terminals(s.iter().copied()).map_err(|x| e(&x))?;
        let want = known.secrets.iter().filter(|(k, _)| s.contains(k)).flat_map(|(_, s)| s.iter().copied()).collect::<Outs>();
        ensure_eq!(got, want, "assignments to blinded seals {:?}", s);
    }
    for o in (0..4).map(op_id) {
        ensure_eq!(index.bundle_id_for_op(o).ok(), known.ops.get(&o).copied(), "bundle of operation {}", o);
    }
    for b in (0..4).map(bundle_id) {
        let got = index.bundle_info(b).ok().map(|(w, c)| (c, w.collect::<Vec<_>>()));
        let want = known.bundles.get(&b).map(|(c, w)| (*c, w.iter().copied().collect::<Vec<_>>()));
        let got = got.map(|(c, mut w)| {
            w.sort();
            (c, w)
        });
        ensure_eq!(got, want, "contract and witnesses of bundle {}", b);
    }
    Ok(())
}

pub fn c16_provider(ctx: &Ctx) {
    ctx.check("provider", 60000, 600000, || prop::collection::vec(put(), 1..14), |puts, cov| {
        let mut index = MemIndex::in_memory();
        let mut known = Known::default();
        let mut lists = 0;
        for p in puts {
            match p {
                Put::Contract { contract } => {
                    let id = contract_id(*contract);
                    let new = index.register_contract(id).map_err(|e| Fail::new(format!("contract is not registered: {e}")))?;
                    ensure_eq!(new, known.contracts.insert(id), "contract is reported as a new one");
                }
                Put::Bundle { bundle, witness, contract } => {
                    let (b, w, c) = (bundle_id(*bundle), witness_id(*witness), contract_id(*contract));
                    let r = index.register_bundle(b, w, c);
                    match known.bundles.get_mut(&b) {
                        Some((other, _)) if *other != c => ensure!(r.is_err(), "bundle is registered under two contracts"),
                        Some((_, ws)) => {
                            ws.insert(w);
                            ensure_eq!(r.ok(), Some(false), "known bundle registered again");
                        }
                        None => {
                            known.bundles.insert(b, (c, bset![w]));
                            ensure_eq!(r.ok(), Some(true), "new bundle registered");
                        }
                    }
                }
                Put::Operation { op, bundle } => {
                    let (o, b) = (op_id(*op), bundle_id(*bundle));
                    let r = index.register_operation(o, b);
                    match known.ops.get(&o) {
                        Some(other) if *other != b => ensure!(r.is_err(), "operation is registered under two bundles"),
                        Some(_) => ensure_eq!(r.ok(), Some(false), "known operation registered again"),
                        None => {
                            known.ops.insert(o, b);
                            ensure_eq!(r.ok(), Some(true), "new operation registered");
                        }
                    }
                }
                Put::Genesis { contract, ty, data, items } => {
                    let c = contract_id(*contract);
                    let op = OpId::from([contract + 1; 32]);
                    let t = AssignmentType::with(*ty as u16);
                    let seals = items.iter().map(|i| (i.form, genesis_seal(i))).collect::<Vec<_>>();
                    let r = match data {
                        true => {
                            let list = seals.iter().map(|(f, s)| assign(*f, *s, RevealedData::with_salt(DataState::from(amplify::confinement::SmallBlob::try_from(vec![*f]).unwrap()), 5))).collect::<Vec<_>>();
                            index.index_genesis_assignments(c, &list, op, t)
                        }
                        false => {
                            let list = seals.iter().map(|(f, s)| assign(*f, *s, VoidState::default())).collect::<Vec<_>>();
                            index.index_genesis_assignments(c, &list, op, t)
                        }
                    };
                    ensure_eq!(r.is_ok(), known.contracts.contains(&c), "genesis of a contract is indexed");
                    if r.is_ok() {
                        lists += 1;
                        for (n, (f, s)) in seals.iter().enumerate() {
                            known.add(c, op, *ty, n, *f, s.to_outpoint(), s.conceal());
                        }
                    }
                }
                Put::Transition { contract, op, ty, witness, data, items } => {
                    let c = contract_id(*contract);
                    let op = op_id(*op);
                    let w = witness_id(*witness);
                    let t = AssignmentType::with(*ty as u16);
                    let seals = items.iter().map(|i| (i.form, graph_seal(i))).collect::<Vec<_>>();
                    let r = match data {
                        true => {
                            let list = seals.iter().map(|(f, s)| assign(*f, *s, RevealedData::with_salt(DataState::from(amplify::confinement::SmallBlob::try_from(vec![*f]).unwrap()), 5))).collect::<Vec<_>>();
                            index.index_transition_assignments(c, &list, op, t, w)
                        }
                        false => {
                            let list = seals.iter().map(|(f, s)| assign(*f, *s, VoidState::default())).collect::<Vec<_>>();
                            index.index_transition_assignments(c, &list, op, t, w)
                        }
                    };
                    ensure_eq!(r.is_ok(), known.contracts.contains(&c), "transition of a contract is indexed");
                    if r.is_ok() {
                        lists += 1;
                        for (n, (i, (f, s))) in items.iter().zip(&seals).enumerate() {
                            let place = match i.own {
                                true => XOutpoint::from(XChain::Bitcoin(bp::Outpoint::new(txid(0x1000 + *witness as u64), i.seal as u32))),
                                false => XOutpoint::from(XChain::Bitcoin(bp::Outpoint::new(txid(0x2000 + (i.seal / 2) as u64), i.seal as u32 % 2))),
                            };
                            known.add(c, op, *ty, n, *f, place, s.conceal());
                        }
                    }
                }
            }
            check(&index, &known)?;
        }
        cov.nontrivial_if(lists >= 2);
        Ok(())
    });
}
