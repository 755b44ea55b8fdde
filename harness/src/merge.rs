//! C08: partial views of operations, bundles, anchors and transactions.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::{ByteArray, Wrapper};
use bp::dbc::anchor::Anchor;
use bp::dbc::opret::OpretProof;
use bp::dbc::tapret::TapretProof;
use bp::seals::txout::CloseMethod;
use commit_verify::{mpc, CommitId, Conceal};
use proptest::prelude::*;
use rgb::*;
use rgbstd::containers::*;
use rgbstd::persistence::StashReadProvider;
use rgbstd::MergeReveal;
use serde::{Deserialize, Serialize};

use crate::build::*;
use crate::env::*;
use crate::frame::*;
use crate::world::*;
use crate::{ensure, ensure_eq};

/// Which parts of an assignment are shown: 1 - the seal, 2 - the state.
fn shown(mask: u64, op: OpId, ty: AssignmentType, no: usize) -> u8 {
    let n = u64::from_le_bytes(op.to_byte_array()[..8].try_into().unwrap());
    match mask {
        0 => 0,
        u64::MAX => 3,
        _ => (mix(mix(mask, n), (ty.to_inner() as u64) << 16 | no as u64) >> 7) as u8 & 3,
    }
}

fn hide_one<S: ExposedState, Seal: ExposedSeal>(a: &Assign<S, Seal>, bits: u8) -> Assign<S, Seal> {
    let (seal, secret, state, veiled, lock) = match a.clone() {
        Assign::Revealed { seal, state, lock } => (Some(seal), seal.conceal(), Some(state.clone()), state.conceal(), lock),
        Assign::ConfidentialSeal { seal, state, lock } => (None, seal, Some(state.clone()), state.conceal(), lock),
        Assign::ConfidentialState { seal, state, lock } => (Some(seal), seal.conceal(), None, state, lock),
        Assign::Confidential { seal, state, lock } => (None, seal, None, state, lock),
    };
    match (seal.filter(|_| bits & 1 == 1), state.filter(|_| bits & 2 == 2)) {
        (Some(seal), Some(state)) => Assign::Revealed { seal, state, lock },
        (None, Some(state)) => Assign::ConfidentialSeal { seal: secret, state, lock },
        (Some(seal), None) => Assign::ConfidentialState { seal, state: veiled, lock },
        (None, None) => Assign::Confidential { seal: secret, state: veiled, lock },
    }
}

fn open<Seal: ExposedSeal>(a: &mut Assignments<Seal>, seal: XChain<Seal>) {
    fn go<S: ExposedState, Seal: ExposedSeal>(a: &mut Assign<S, Seal>, open: XChain<Seal>) {
        let secret = open.conceal();
        *a = match a.clone() {
            Assign::ConfidentialSeal { seal, state, lock } if seal == secret => Assign::Revealed { seal: open, state, lock },
            Assign::Confidential { seal, state, lock } if seal == secret => Assign::ConfidentialState { seal: open, state, lock },
            x => x,
        };
    }
    for list in a.values_mut() {
        match list {
            TypedAssigns::Declarative(v) => v.iter_mut().for_each(|x| go(x, seal)),
            TypedAssigns::Fungible(v) => v.iter_mut().for_each(|x| go(x, seal)),
            TypedAssigns::Structured(v) => v.iter_mut().for_each(|x| go(x, seal)),
            TypedAssigns::Attachment(v) => v.iter_mut().for_each(|x| go(x, seal)),
        }
    }
}

fn hide<Seal: ExposedSeal>(a: &Assignments<Seal>, bits: impl Fn(AssignmentType, usize) -> u8) -> Assignments<Seal> {
    let mut a = a.clone();
    for (ty, list) in a.keyed_values_mut() {
        match list {
            TypedAssigns::Declarative(v) => v.iter_mut().enumerate().for_each(|(n, x)| *x = hide_one(x, bits(*ty, n))),
            TypedAssigns::Fungible(v) => v.iter_mut().enumerate().for_each(|(n, x)| *x = hide_one(x, bits(*ty, n))),
            TypedAssigns::Structured(v) => v.iter_mut().enumerate().for_each(|(n, x)| *x = hide_one(x, bits(*ty, n))),
            TypedAssigns::Attachment(v) => v.iter_mut().enumerate().for_each(|(n, x)| *x = hide_one(x, bits(*ty, n))),
        }
    }
    a
}

/// Views are compared by everything they show, except for placeholders of range proofs, which are random.
fn look(v: &impl std::fmt::Debug) -> String {
    let text = format!("{v:?}");
    let mut parts = text.split("Placeholder(NoiseDumb(Array<512>(");
    let mut out = parts.next().unwrap_or_default().to_string();
    for part in parts {
        out.push_str(part.split_once(')').map(|x| x.1).unwrap_or(part));
    }
    out
}

trait Op: Sized + Clone + std::fmt::Debug + MergeReveal {
    fn opid(&self) -> OpId;
    fn view(&self, bits: impl Fn(AssignmentType, usize) -> u8) -> Self;
    fn other(&self) -> Self;
    fn count(&self) -> usize;
}

macro_rules! op {
    ($ty:ty, $f:ident) => {
        impl Op for $ty {
            fn opid(&self) -> OpId { OpId::from_byte_array(self.id().to_byte_array()) }
            fn view(&self, bits: impl Fn(AssignmentType, usize) -> u8) -> Self {
                let mut me = self.clone();
                me.assignments = hide(&self.assignments, bits);
                me
            }
            fn other(&self) -> Self {
                let mut me = self.clone();
                me.$f = me.$f.wrapping_add(1);
                me
            }
            fn count(&self) -> usize { self.assignments.values().map(|a| a.len_u16() as usize).sum() }
        }
    };
}
op!(Genesis, timestamp);
op!(Transition, nonce);
op!(Extension, nonce);

fn merge<T: MergeReveal + Clone>(what: &str, a: &T, b: &T) -> Res<T> {
    total("merging", || a.clone().merge_reveal(b.clone()))?.map_err(|e| Fail::new(format!("views of the same {what} are not merged: {e}")))
}

fn refuse<T: MergeReveal + Clone + std::fmt::Debug>(what: &str, a: &T, b: &T) -> Res {
    for (a, b) in [(a, b), (b, a)] {
        let res = total("merging", || a.clone().merge_reveal(b.clone()))?;
        ensure!(res.is_err(), "views of different {what} are merged: {res:?}");
    }
    Ok(())
}

/// Checks that the merge of views is the expected view, in any order.
fn laws<T: MergeReveal + Clone + std::fmt::Debug>(what: &str, view: impl Fn(&[usize]) -> T, cov: &mut Cov) -> Res {
    for (n, m) in [(0, 1), (1, 2), (2, 0), (0, 0)] {
        let (a, b, both) = (view(&[n]), view(&[m]), view(&[n, m]));
        ensure_eq!(look(&merge(what, &a, &b)?), look(&both), "merge of two views of {what}");
        cov.nontrivial_if(look(&both) != look(&a) && look(&both) != look(&b));
    }
    let all = look(&view(&[0, 1, 2]));
    let (a, b, c) = (view(&[0]), view(&[1]), view(&[2]));
    ensure_eq!(look(&merge(what, &merge(what, &a, &b)?, &c)?), all, "merge of three views of {what}");
    ensure_eq!(look(&merge(what, &a, &merge(what, &b, &c)?)?), all, "merge of three views of {what}");
    ensure_eq!(look(&merge(what, &merge(what, &c, &b)?, &merge(what, &a, &b)?)?), all, "merge of merged views of {what}");
    Ok(())
}

fn op_laws<T: Op>(what: &str, full: &T, masks: &[u64; 3], cov: &mut Cov) -> Res {
    let id = full.opid();
    laws(what, |list| full.view(|ty, no| list.iter().fold(0, |b, n| b | shown(masks[*n], id, ty, no))), cov)?;
    let a = full.view(|ty, no| shown(masks[0], id, ty, no));
    let b = full.view(|ty, no| shown(masks[1], id, ty, no));
    ensure!(a.opid() == id && b.opid() == id && merge(what, &a, &b)?.opid() == id, "a view of {what} has another id");
    refuse(what, &a, &full.other())?;
    refuse(what, &full.other(), &b)?;
    if full.count() > 0 {
        cov.class(what);
    }
    Ok(())
}

fn bundle_view(full: &TransitionBundle, masks: &[u64; 3], list: &[usize]) -> TransitionBundle {
    let mut b = full.clone();
    let first = *full.known_transitions.keys().next().expect("transitions");
    let map = full.known_transitions.iter().filter_map(|(id, t)| {
        let by = |n: usize| {
            let x = mix(masks[n], u64::from_le_bytes(id.to_byte_array()[8..16].try_into().unwrap()));
            // each view has at least one transition
            full.known_transitions.len() == 1 || x & 1 == 1 || *id == first
        };
        let list = list.iter().copied().filter(|n| by(*n)).collect::<Vec<_>>();
        (!list.is_empty()).then(|| (*id, t.view(|ty, no| list.iter().fold(0, |b, n| b | shown(masks[*n], *id, ty, no)))))
    });
    b.known_transitions = Confined::try_from(map.collect::<BTreeMap<_, _>>()).expect("transitions");
    b
}

/// Disclosing a seal discloses it and nothing else.
fn reveal(wb: &WitnessBundle, masks: &[u64; 3], cov: &mut Cov) -> Res {
    let hidden = remake(wb, |b| *b = bundle_view(b, masks, &[0]));
    let bundles = |wb: &WitnessBundle| wb.anchored_bundles().map(|(_, b)| look(b)).collect::<Vec<_>>();
    for (_, b) in wb.anchored_bundles() {
        let id = b.bundle_id();
        for item in b.known_transitions.values().flat_map(|t| items(&t.assignments)) {
            let Some(seal) = item.seal else { continue };
            let expect = remake(wb, |b| {
                let here = b.bundle_id() == id;
                let full = b.clone();
                *b = bundle_view(b, masks, &[0]);
                let map = b.known_transitions.iter().map(|(op, _)| {
                    let mut t = full.known_transitions[op].clone();
                    if here {
                        open(&mut t.assignments, seal);
                    }
                    let same = items(&t.assignments).into_iter().filter(|i| i.secret == item.secret && here).map(|i| (i.ty, i.no as usize)).collect::<BTreeSet<_>>();
                    (*op, t.view(|ty, no| shown(masks[0], *op, ty, no) | same.contains(&(ty.to_inner(), no)) as u8))
                });
                b.known_transitions = Confined::try_from(map.collect::<BTreeMap<_, _>>()).expect("transitions");
            });
            let mut me = hidden.clone();
            ensure!(total("revealing a seal", || me.reveal_seal(id, seal))?, "bundle is not found");
            ensure_eq!(bundles(&me), bundles(&expect), "bundles after revealing a seal");
            if bundles(&me) != bundles(&hidden) {
                cov.class("seal-revealed");
            }
            let before = bundles(&me);
            ensure!(!total("revealing a seal", || me.reveal_seal(BundleId::from([7; 32]), seal))?, "unknown bundle is found");
            ensure_eq!(bundles(&me), before, "bundles after revealing a seal in an unknown bundle");
        }
    }
    Ok(())
}

/// Partial views of anchors.
fn partial<D: bp::dbc::Proof<bp::seals::txout::CloseMethod>>(a: &Anchor<mpc::MerkleBlock, D>, mask: u64) -> (Anchor<mpc::MerkleBlock, D>, BTreeSet<mpc::ProtocolId>) {
    let mut a = a.clone();
    let all = a.mpc_proof.to_known_message_map().release().into_keys().collect::<Vec<_>>();
    let mut keep = all.iter().copied().enumerate().filter(|(n, _)| mask == u64::MAX || mix(mask, *n as u64) & 1 == 1).map(|x| x.1).collect::<BTreeSet<_>>();
    if keep.is_empty() {
        keep.insert(all[mask as usize % all.len()]);
    }
    if mask != u64::MAX {
        a.mpc_proof.conceal_except(keep.iter().copied().collect::<Vec<_>>()).expect("known messages");
    }
    (a, keep)
}

type Known = BTreeSet<(CloseMethod, mpc::ProtocolId)>;

fn anchor_view(full: &AnchorSet, mask: u64) -> (AnchorSet, Known) {
    let mut known = bset![];
    let tapret = |t: &Anchor<mpc::MerkleBlock, TapretProof>, known: &mut Known| {
        let (t, k) = partial(t, if mask == u64::MAX { mask } else { mix(mask, 1) });
        known.extend(k.into_iter().map(|k| (CloseMethod::TapretFirst, k)));
        t
    };
    let opret = |t: &Anchor<mpc::MerkleBlock, OpretProof>, known: &mut Known| {
        let (t, k) = partial(t, if mask == u64::MAX { mask } else { mix(mask, 2) });
        known.extend(k.into_iter().map(|k| (CloseMethod::OpretFirst, k)));
        t
    };
    let set = match full {
        AnchorSet::Tapret(t) => AnchorSet::Tapret(tapret(t, &mut known)),
        AnchorSet::Opret(o) => AnchorSet::Opret(opret(o, &mut known)),
        AnchorSet::Double { tapret: t, opret: o } => match mask / 5 % 3 {
            0 if mask != u64::MAX => AnchorSet::Tapret(tapret(t, &mut known)),
            1 if mask != u64::MAX => AnchorSet::Opret(opret(o, &mut known)),
            _ => AnchorSet::Double { tapret: tapret(t, &mut known), opret: opret(o, &mut known) },
        },
    };
    (set, known)
}

fn anchor_known(a: &AnchorSet) -> (Known, Vec<BundleId>, Vec<mpc::Commitment>) {
    let mut known = bset![];
    let mut ids = vec![];
    let mut roots = vec![];
    let mut add = |block: &mpc::MerkleBlock, method: CloseMethod| {
        for (p, m) in block.to_known_message_map().release() {
            known.insert((method, p));
            ids.push(BundleId::from_byte_array(m.to_byte_array()));
        }
        roots.push(block.commit_id());
    };
    if let AnchorSet::Tapret(t) | AnchorSet::Double { tapret: t, .. } = a {
        add(&t.mpc_proof, CloseMethod::TapretFirst);
    }
    if let AnchorSet::Opret(t) | AnchorSet::Double { opret: t, .. } = a {
        add(&t.mpc_proof, CloseMethod::OpretFirst);
    }
    ids.sort();
    (known, ids, roots)
}

fn anchor_laws(full: &AnchorSet, masks: &[u64; 3], others: &[AnchorSet], cov: &mut Cov) -> Res {
    let views = masks.map(|m| anchor_view(full, m));
    let join = |a: &AnchorSet, b: &AnchorSet| -> Res<AnchorSet> {
        total("merging anchors", || a.clone().merge_reveal(b.clone()))?.map_err(|e| Fail::new(format!("views of the same anchor are not merged: {e}\n{a:?}\n{b:?}")))
    };
    let judge = |merged: &AnchorSet, list: &[usize]| -> Res {
        let expect = list.iter().flat_map(|n| views[*n].1.iter().copied()).collect::<Known>();
        let (known, ids, roots) = anchor_known(merged);
        ensure_eq!(known, expect, "messages known from merged anchors");
        let mut reported = merged.known_bundle_ids().collect::<Vec<_>>();
        reported.sort();
        ensure_eq!(reported, ids, "bundles known from merged anchors");
        let all = anchor_known(full).2;
        ensure!(roots.iter().all(|r| all.contains(r)), "merged anchors commit to something else");
        Ok(())
    };
    for (n, m) in [(0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (0, 0), (1, 1)] {
        judge(&join(&views[n].0, &views[m].0)?, &[n, m])?;
        let (x, y) = (&views[n].1, &views[m].1);
        if !x.is_subset(y) && !y.is_subset(x) {
            cov.class("anchor");
            cov.nontrivial_if(true);
        }
    }
    ensure_eq!(look(&join(&views[0].0, &views[0].0)?), look(&views[0].0), "merge of the same anchors");
    judge(&join(&join(&views[0].0, &views[1].0)?, &views[2].0)?, &[0, 1, 2])?;
    judge(&join(&views[2].0, &join(&views[1].0, &views[0].0)?)?, &[0, 1, 2])?;
    // Anchors of other transactions
    for other in others {
        let (a, b) = (&views[0].0, other);
        let shared = (a.has_tapret() && b.has_tapret()) || (a.has_opret() && b.has_opret());
        let known = anchor_known(full).2;
        if shared && anchor_known(other).2.iter().all(|r| !known.contains(r)) {
            ensure!(total("merging anchors", || a.clone().merge_reveal(b.clone()))?.is_err(), "anchors of different transactions are merged");
            ensure!(total("merging anchors", || b.clone().merge_reveal(a.clone()))?.is_err(), "anchors of different transactions are merged");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Merged {
    pub pick: u8,
    pub masks: [u64; 3],
    pub more: Vec<u64>,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn merged(x: &Merged, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let world = run_history(&h, Flags::default(), cov, |_, _| Ok(()))?;
    let mut geneses = bmap! {};
    for w in &world.wallets {
        for g in w.stock.as_stash_provider().geneses().map_err(|e| Fail::new(format!("{e}")))? {
            geneses.insert(g.contract_id(), g.clone());
        }
    }
    for (n, id) in world.contracts.iter().enumerate().take(3) {
        let Some(g) = geneses.get(&id.0) else { continue };
        let masks = x.masks.map(|m| if m == 0 || m == u64::MAX { m } else { mix(m, n as u64) });
        op_laws("contract", g, &masks, cov)?;
        let mut e = Extension { ffv: g.ffv, contract_id: g.contract_id(), nonce: x.masks[0], extension_type: ExtensionType::with(EXT), metadata: g.metadata.clone(), globals: g.globals.clone(), assignments: g.assignments.clone(), redeemed: none!(), valencies: none!(), validator: none!(), witness: none!() };
        op_laws("extension", &e, &masks, cov)?;
        // states of other kinds
        let files = x.more.iter().enumerate().map(|(n, m)| {
            let s = RevealedAttach::with_salt(attach_id(*m as u8), MediaType::Any, mix(*m, 1));
            let seal = SealG { tx: 1 + n as u8, vout: *m as u8, liquid: x.liquid, opret: m & 1 == 1, concealed: false, blinding: *m };
            Assign::revealed(seal.genesis(), s)
        });
        if !x.more.is_empty() {
            let list = TypedAssigns::Attachment(Confined::try_from(files.collect::<Vec<_>>()).unwrap());
            e.assignments.insert(oty(DOC), list).expect("few types");
            op_laws("extension with files", &e, &masks, cov)?;
        }
    }
    let sent = world.sent.iter().filter(|s| s.0).map(|s| &s.1).collect::<Vec<_>>();
    if !sent.is_empty() {
        let t = from_bytes::<Transfer>(sent[x.pick as usize % sent.len()].clone()).map_err(Fail::new)?;
        for wb in t.bundles.iter() {
            reveal(wb, &x.masks, cov)?;
        }
    }
    if world.fascias.is_empty() {
        return Ok(());
    }
    let at = x.pick as usize % world.fascias.len();
    let fascia = &world.fascias[at];
    let mut all = vec![];
    for (_, d) in fascia.bundles.iter() {
        all.extend(d.iter().cloned());
    }
    for b in &all {
        for t in b.known_transitions.values() {
            op_laws("transition", t, &x.masks, cov)?;
        }
        laws("bundle", |list| bundle_view(b, &x.masks, list), cov)?;
        cov.class_if(b.known_transitions.len() > 1, "bundle-of-many");
        let a = bundle_view(b, &x.masks, &[0]);
        ensure_eq!(merge("bundle", &a, &bundle_view(b, &x.masks, &[1]))?.bundle_id(), b.bundle_id(), "id of merged bundles");
        // another bundle, even of the same transitions
        let mut other = b.clone();
        other.input_map.insert(Vin::from_u32(77), *b.known_transitions.keys().next().unwrap()).expect("few inputs");
        refuse("bundles", &a, &other)?;
        let mut other = b.clone();
        other.close_method = if b.close_method == CloseMethod::OpretFirst { CloseMethod::TapretFirst } else { CloseMethod::OpretFirst };
        if other.bundle_id() != b.bundle_id() {
            refuse("bundles", &a, &other)?;
        }
    }
    if all.len() > 1 {
        refuse("bundles", &all[0], &all[1])?;
    }
    let others = world.fascias.iter().enumerate().filter(|(n, _)| *n != at).map(|(_, f)| f.anchor.clone()).collect::<Vec<_>>();
    anchor_laws(&fascia.anchor, &x.masks, &others, cov)?;
    // Transactions
    let tx = world.chain.txs[&fascia.witness_id()].0.clone();
    let full: XPubWitness = tx.map_ref(|tx| PubWitness::with(tx.clone()));
    let brief: XPubWitness = tx.map_ref(|tx| PubWitness::new(tx.txid()));
    let bytes = |w: &XPubWitness| strict(w);
    for (a, b) in [(&full, &brief), (&brief, &full), (&full, &full)] {
        ensure_eq!(bytes(&merge("transaction", a, b)?), bytes(&full), "merge of a transaction and its id");
    }
    ensure_eq!(bytes(&merge("transaction", &brief, &brief)?), bytes(&brief), "merge of transaction ids");
    let mut changed = tx.as_reduced_unsafe().clone();
    changed.lock_time = bp::LockTime::from_consensus_u32(changed.lock_time.to_consensus_u32() ^ 1 ^ x.pick as u32);
    if changed.txid() != tx.as_reduced_unsafe().txid() {
        for other in [PubWitness::with(changed.clone()), PubWitness::new(changed.txid())] {
            let other = XChain::with(world.layer1, other);
            refuse("transactions", &full, &other)?;
            refuse("transactions", &brief, &other)?;
        }
    }
    let layer = if x.liquid { Layer1::Bitcoin } else { Layer1::Liquid };
    for one in [&full, &brief] {
        let far = XChain::with(layer, one.as_reduced_unsafe().clone());
        refuse("transactions", &full, &far)?;
        refuse("transactions", &brief, &far)?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trees {
    pub count: u8,
    pub depth: u8,
    pub entropy: u64,
    pub masks: [u64; 3],
}

/// Anchors of many contracts.
fn trees(x: &Trees, cov: &mut Cov) -> Res {
    let tree = |salt: u64| {
        let map = (0..1 + x.count as u64).map(|n| (ContractId::from(b32_of(mix(x.entropy, n))), BundleId::from(b32_of(mix(x.entropy ^ salt, n + 1000))))).collect::<BTreeMap<_, _>>();
        mpc_tree(&map, x.entropy, x.depth)
    };
    let make = |salt: u64| -> AnchorSet { AnchorSet::Opret(Anchor::new(mpc::MerkleBlock::from(tree(salt)), OpretProof::default())) };
    cov.class(format!("contracts-{}", (1 + x.count as usize).next_power_of_two()));
    anchor_laws(&make(0), &x.masks, &[make(1)], cov)
}

fn b32_of(n: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    for (k, c) in b.chunks_mut(8).enumerate() {
        c.copy_from_slice(&mix(n, k as u64).to_le_bytes());
    }
    b
}

fn masks() -> impl Strategy<Value = [u64; 3]> {
    let m = || prop_oneof![6 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX)];
    (m(), m(), m()).prop_map(|(a, b, c)| [a, b, c])
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("views neither of which shows everything that the merged view shows");
    let x = Weights { deliver: 3, split: 8, send: 4, share: 1, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };
    ctx.check("views", 1500, 60000, || {
        (any::<u8>(), masks(), proptest::collection::vec(any::<u64>(), 0..4), busy(x, 6)).prop_map(|(pick, masks, more, h)| Merged {
            pick,
            masks,
            more,
            liquid: h.liquid,
            testnet: h.testnet,
            steps: h.steps,
        })
    }, merged);
    ctx.check("anchors", 3000, 60000, || {
        (prop_oneof![3 => 0u8..6, 1 => 0u8..24], 1u8..5, any::<u64>(), masks()).prop_map(|(count, depth, entropy, masks)| Trees { count, depth, entropy, masks })
    }, trees);
}

/// Conceals some of the seals, and of the states if needed.
pub fn conceal<Seal: ExposedSeal>(a: &mut Assignments<Seal>, mask: u64, states: bool) {
    *a = hide(a, |ty, no| shown(mask, OpId::from([0; 32]), ty, no) | if states { 0 } else { 2 });
}
