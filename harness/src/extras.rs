//! C25, C26, C27: supplements, signatures and own seals, listings.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::str::FromStr;

use amplify::confinement::Confined;
use chrono::{TimeZone, Utc};
use commit_verify::Conceal;
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::*;
use rgbstd::containers::*;
use rgbstd::info::*;
use rgbstd::interface::*;
use rgbstd::persistence::*;
use rgbstd::stl::ProofOfReserves;
use serde::{Deserialize, Serialize};
use strict_encoding::{FieldName, StrictDeserialize, StrictSerialize, TypeName, VariantName};

use crate::alter::decode;
use crate::boxes::odd_identity;
use crate::build::*;
use crate::env::*;
use crate::frame::*;
use crate::store::{facts, sig};
use crate::world::*;
use crate::{ensure, ensure_eq, fail};

// ---------------------------------------------------------------------------
// C25: annotations

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Note {
    Amount(u64),
    Velocity(u8),
    Features(Vec<u8>),
    Ticker(u8, u16),
    /// a file of the given size
    File(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Annot {
    /// subject, item, name
    Put(u8, u16, u8, Note),
    /// many items or many names
    Fill(u8, bool, u16),
}

fn sub(n: u8) -> SupplSub { SupplSub::try_from(n % 10).expect("known subjects") }

fn place(n: u16) -> SupplItem {
    match n % 5 {
        0 => SupplItem::Default,
        1 => SupplItem::TypeNo(n / 5),
        2 => SupplItem::TypeName(TypeName::from_str(&format!("Type{}", n / 5 % 3)).unwrap()),
        3 => SupplItem::FieldName(FieldName::from_str(&format!("same{}", n / 5 % 3)).unwrap()),
        _ => SupplItem::VariantName(VariantName::from_str(&format!("same{}", n / 5 % 3)).unwrap()),
    }
}

fn label(n: u16) -> AnnotationName { AnnotationName::from_str(&format!("Note-{n}")).unwrap() }

fn velocity(n: u8) -> VelocityHint { [VelocityHint::Unspecified, VelocityHint::Seldom, VelocityHint::Episodic, VelocityHint::Regular, VelocityHint::Frequent, VelocityHint::HighFrequency][n as usize % 6] }

fn features(list: &[u8]) -> FeatureList {
    FeatureList::from(Confined::try_from(list.iter().map(|n| FieldName::from_str(&format!("feature{n}")).unwrap()).collect::<BTreeSet<_>>()).unwrap())
}

fn ticker(n: u8, ty: u16) -> TickerSuppl {
    let path = || strict_types::value::Path::new();
    match n % 3 {
        0 => TickerSuppl::Absent,
        1 => TickerSuppl::Global(gty(ty), path()),
        _ => TickerSuppl::Owned(oty(ty), path()),
    }
}

fn file(n: u32) -> ProofOfReserves { ProofOfReserves::new(bp::Outpoint::new(txid(1), n), Confined::try_from(vec![n as u8; n as usize]).unwrap()) }

impl Note {
    fn put(&self, s: &mut Supplement, sub: SupplSub, item: SupplItem, name: AnnotationName, how: bool) -> Result<bool, String> {
        fn go(s: &mut Supplement, sub: SupplSub, item: SupplItem, name: AnnotationName, how: bool, v: &impl StrictSerialize) -> Result<bool, String> {
            match (how, sub, &item) {
                (true, SupplSub::Itself, SupplItem::Default) => s.annotate_itself(name, v),
                (true, _, SupplItem::Default) => s.annotate_default(sub, name, v),
                _ => s.annotate(sub, item, name, v),
            }
            .map_err(|e| e.to_string())
        }
        match self {
            Note::Amount(n) => go(s, sub, item, name, how, &rgbinvoice::Amount::from(*n)),
            Note::Velocity(n) => go(s, sub, item, name, how, &velocity(*n)),
            Note::Features(l) => go(s, sub, item, name, how, &features(l)),
            Note::Ticker(n, t) => go(s, sub, item, name, how, &ticker(*n, *t)),
            Note::File(n) => go(s, sub, item, name, how, &file(*n)),
        }
    }

    fn check(&self, s: &Supplement, sub: SupplSub, item: SupplItem, name: AnnotationName) -> Res {
        fn go<T: StrictDeserialize + PartialEq + std::fmt::Debug>(s: &Supplement, sub: SupplSub, item: SupplItem, name: AnnotationName, v: T) -> Res {
            match total("reading an annotation", || s.get::<T>(sub, item.clone(), name.clone()))? {
                Some(Ok(x)) => ensure_eq!(x, v, "annotation"),
                x => fail!("annotation {name} of {sub:?} {item:?} is {x:?} instead of {v:?}"),
            }
            if item == SupplItem::Default {
                ensure_eq!(total("reading an annotation", || s.get_default_opt::<T>(sub, name.clone()))?, Some(v), "default annotation");
                ensure!(matches!(total("reading an annotation", || s.get_default::<T>(sub, name.clone()))?, Some(Ok(_))), "default annotation is not read");
            }
            Ok(())
        }
        match self {
            Note::Amount(n) => go(s, sub, item, name, rgbinvoice::Amount::from(*n)),
            Note::Velocity(n) => go(s, sub, item, name, velocity(*n)),
            Note::Features(l) => go(s, sub, item, name, features(l)),
            Note::Ticker(n, t) => go(s, sub, item, name, ticker(*n, *t)),
            Note::File(n) => go(s, sub, item, name, file(*n)),
        }
    }

    fn bytes(&self) -> Vec<u8> {
        match self {
            Note::Amount(n) => strict(&rgbinvoice::Amount::from(*n)),
            Note::Velocity(n) => strict(&velocity(*n)),
            Note::Features(l) => strict(&features(l)),
            Note::Ticker(n, t) => strict(&ticker(*n, *t)),
            Note::File(n) => strict(&file(*n)),
        }
    }
}

type Notes = BTreeMap<(SupplSub, SupplItem, AnnotationName), Note>;

fn annotate(steps: &Vec<Annot>, cov: &mut Cov) -> Res {
    let mut s = Supplement::new(ContentRef::Genesis(ContractId::from([1; 32])), odd_identity(steps.len() as u64));
    s.timestamp = 1_700_000_000;
    let mut model: Notes = bmap! {};
    let mut refused = 0;
    let one = |s: &mut Supplement, model: &mut Notes, sb: SupplSub, item: SupplItem, name: AnnotationName, note: &Note, how: bool| -> Res<bool> {
        let key = (sb, item.clone(), name.clone());
        let items = model.keys().filter(|k| k.0 == sb).map(|k| k.1.clone()).collect::<BTreeSet<_>>();
        let names = model.keys().filter(|k| k.0 == sb && k.1 == item).count();
        let fits = note.bytes().len() <= 0xFFFF && (model.contains_key(&key) || names < 0xFF) && (items.contains(&item) || items.len() < 0xFF);
        // a change in a full collection may be refused by the collection itself
        let full = names >= 0xFF || items.len() >= 0xFF;
        let before = s.clone();
        let known = model.contains_key(&key);
        match total("annotating", || note.put(s, sb, item, name, how))? {
            Ok(x) => {
                ensure!(fits, "an annotation over the limit is not refused");
                ensure_eq!(x, known, "whether an annotation was known");
                model.insert(key, note.clone());
                Ok(true)
            }
            Err(e) => {
                ensure!(!fits || full, "annotation is refused: {e}");
                ensure!(*s == before, "a refused annotation changes the supplement");
                Ok(false)
            }
        }
    };
    for (n, step) in steps.iter().enumerate() {
        let id = s.suppl_id();
        let before = strict(&s);
        match step {
            Annot::Put(a, i, m, note) => {
                if !one(&mut s, &mut model, sub(*a), place(*i), label(*m as u16 % 4), note, n % 2 == 0)? {
                    refused += 1;
                }
            }
            Annot::Fill(a, items, count) => {
                for k in 0..*count {
                    let (item, name) = if *items { (SupplItem::TypeNo(k), label(0)) } else { (SupplItem::Default, label(k)) };
                    if !one(&mut s, &mut model, sub(*a), item, name, &Note::Amount(k as u64), false)? {
                        refused += 1;
                    }
                }
            }
        }
        ensure_eq!(s.suppl_id() == id, strict(&s) == before, "whether the id is the same");
        for ((sb, item, name), note) in &model {
            note.check(&s, *sb, item.clone(), name.clone())?;
        }
        let all = s.annotations.iter().flat_map(|(a, m)| m.iter().flat_map(move |(i, m)| m.iter().map(move |(n, v)| ((*a, i.clone(), n.clone()), v.to_vec())))).collect::<BTreeMap<_, _>>();
        ensure!(all == model.iter().map(|(k, v)| (k.clone(), v.bytes())).collect::<BTreeMap<_, _>>(), "there are other annotations than these which were made");
        ensure!(total("reading an annotation", || s.get::<rgbinvoice::Amount>(sub(n as u8), place(n as u16 + 1000), label(777)))?.is_none(), "unknown annotation is found");
    }
    ensure!(decode::<Supplement>(&strict(&s)).as_ref() == Some(&s), "supplement differs when read again");
    cov.class_if(refused > 0, "refused");
    cov.nontrivial_if(model.len() > 2);
    Ok(())
}

fn annots() -> impl Strategy<Value = Vec<Annot>> {
    let note = prop_oneof![
        3 => any::<u64>().prop_map(Note::Amount),
        2 => any::<u8>().prop_map(Note::Velocity),
        2 => vec(any::<u8>(), 0..4).prop_map(Note::Features),
        1 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Note::Ticker(a, b)),
        2 => prop_oneof![2 => 0u32..300, 1 => 65480u32..=65535].prop_map(Note::File),
    ];
    let put = (prop_oneof![3 => 0u8..2, 1 => 0u8..10], prop_oneof![3 => 0u16..10, 1 => any::<u16>()], any::<u8>(), note).prop_map(|(a, b, c, d)| Annot::Put(a, b, c, d));
    let fill = (0u8..2, any::<bool>(), prop_oneof![Just(254u16), Just(255), Just(256)]).prop_map(|(a, b, c)| Annot::Fill(a, b, c));
    vec(prop_oneof![40 => put, 1 => fill], 1..16)
}

// ---------------------------------------------------------------------------
// Stocks with additional information

/// All the content of a stock which may be referred to.
fn contents(world: &World, w: usize) -> Vec<(ContentRef, ContentId)> {
    let mut refs = vec![];
    for (e, _) in envs() {
        refs.push((ContentRef::Schema(e.schema.schema_id()), ContentId::Schema(e.schema.schema_id())));
        refs.push((ContentRef::Iface(e.iface.iface_id()), ContentId::Iface(e.iface.iface_id())));
        refs.push((ContentRef::IfaceImpl(e.iimpl.impl_id()), ContentId::IfaceImpl(e.iimpl.impl_id())));
    }
    for id in world.wallets[w].m.contracts.keys() {
        refs.push((ContentRef::Genesis(*id), ContentId::Genesis(*id)));
    }
    // something unknown to the stock
    let id = ContractId::from([77; 32]);
    refs.push((ContentRef::Genesis(id), ContentId::Genesis(id)));
    refs.sort();
    refs.dedup();
    refs
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum More {
    /// supplements: content, creator, annotations; signatures: content, identity, signature
    Kit(Vec<(u8, u8, u64)>, Vec<(u8, u8, u64)>),
    /// the contract with other additional information
    Contract(u8, Vec<(u8, u8, u64)>, Vec<(u8, u8, u64)>),
    /// trust level for an identity
    Trust(u8, u8),
    /// own seal
    Seal(u8, u8, u64, bool),
    /// saved and loaded
    Reload,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Extra {
    pub wallet: u8,
    pub more: Vec<More>,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn make_suppl(content: ContentRef, who: u8, n: u64) -> Supplement {
    let mut s = Supplement::new(content, odd_identity(who as u64));
    s.timestamp = 1_700_000_000 + (n % 3) as i64;
    if n & 8 == 8 {
        s.annotate_itself(SUPPL_ANNOT_IFACE_CLASS, &IfaceClassName::from_str(&format!("Class{}", n >> 8 & 3)).unwrap()).expect("small annotation");
    }
    if n & 16 == 16 {
        s.annotate_itself(SUPPL_ANNOT_IFACE_FEATURES, &features(&[(n >> 16) as u8 % 4, (n >> 18) as u8 % 4])).expect("small annotation");
    }
    s.annotate_default(SupplSub::Meta, "Extra", &rgbinvoice::Amount::from(n >> 32 & 3)).expect("small annotation");
    s
}

#[derive(Default)]
struct Known {
    suppl: BTreeMap<ContentRef, BTreeSet<Supplement>>,
    /// signatures in the order of their arrival
    sigs: BTreeMap<ContentId, BTreeMap<Identity, Vec<SigBlob>>>,
    /// identities which signatures were seen in the stock
    seen: BTreeMap<ContentId, BTreeSet<Identity>>,
    untrusted: BTreeSet<Identity>,
    seals: BTreeSet<XChain<GraphSeal>>,
}

impl Known {
    fn learn(&mut self, suppl: &BTreeSet<Supplement>, sigs: &BTreeMap<ContentId, BTreeMap<Identity, SigBlob>>) {
        for s in suppl {
            self.suppl.entry(s.content_id).or_default().insert(s.clone());
        }
        for (id, sigs) in sigs {
            let known = self.sigs.entry(*id).or_default();
            let mut new = known.clone();
            for (who, blob) in sigs {
                if !self.untrusted.contains(who) {
                    new.entry(who.clone()).or_default().push(blob.clone());
                }
            }
            *known = new;
        }
    }
}

const MAX_SIGS: usize = 10;

fn sig_list(x: &[(u8, u8, u64)], refs: &[(ContentRef, ContentId)], suppl: &BTreeSet<Supplement>) -> BTreeMap<ContentId, BTreeMap<Identity, SigBlob>> {
    let mut out: BTreeMap<ContentId, BTreeMap<Identity, SigBlob>> = bmap! {};
    let ids = refs.iter().map(|r| r.1).chain(suppl.iter().map(|s| ContentId::Suppl(s.suppl_id()))).collect::<Vec<_>>();
    for (c, who, blob) in x {
        let sigs = out.entry(ids[*c as usize % ids.len()]).or_default();
        if sigs.len() < MAX_SIGS {
            sigs.insert(odd_identity(*who as u64), sig(*blob));
        }
    }
    out
}

fn suppl_list(x: &[(u8, u8, u64)], refs: &[(ContentRef, ContentId)]) -> BTreeSet<Supplement> { x.iter().map(|(c, who, n)| make_suppl(refs[*c as usize % refs.len()].0, *who, *n)).collect() }

/// What the stock knows compared to what it was told.
fn compare(stock: &Stock, known: &mut Known, refs: &[(ContentRef, ContentId)], cov: &mut Cov) -> Res {
    let stash = stock.as_stash_provider();
    let bad = |e: &dyn std::fmt::Display| Fail::new(format!("{e}"));
    for (r, _) in refs {
        let expect = known.suppl.get(r).cloned().unwrap_or_default();
        let got = total("supplements", || stash.supplements(*r).map(|i| i.collect::<BTreeSet<_>>()))?.map_err(|e| bad(&e))?;
        ensure!(got == expect, "supplements of {r} are {} instead of {} imported", got.len(), expect.len());
        match total("supplement", || stash.supplement(*r).map(|s| s.cloned()))?.map_err(|e| bad(&e))? {
            Some(s) => ensure!(expect.contains(&s), "supplement of {r} was never imported"),
            None => ensure!(expect.is_empty(), "supplement of {r} is not found"),
        }
        cov.class_if(expect.len() > 1, "several-supplements");
    }
    let ids = refs.iter().map(|r| r.1).chain(known.sigs.keys().copied()).collect::<BTreeSet<_>>();
    for id in ids {
        let got = total("signatures", || stash.sigs_for(&id).map(|s| s.cloned()))?.map_err(|e| bad(&e))?.map(|s| s.into_iter().collect::<BTreeMap<_, _>>()).unwrap_or_default();
        let all = known.sigs.get(&id).cloned().unwrap_or_default();
        for (who, blob) in &got {
            ensure!(all.get(who).is_some_and(|list| list.contains(blob)), "signature of {who} on {id:?} was never imported");
        }
        if all.len() <= MAX_SIGS {
            for who in all.keys() {
                ensure!(got.contains_key(who), "signature of {who} on {id:?} is lost");
            }
            cov.class_if(all.len() > 1, "several-signatures");
        } else {
            ensure_eq!(got.len(), MAX_SIGS, "number of signatures on {id:?}");
            cov.class("too-many-signatures");
        }
        let now = got.into_keys().collect::<BTreeSet<_>>();
        let seen = known.seen.entry(id).or_default();
        ensure!(seen.is_subset(&now), "known signature on {id:?} is lost");
        *seen = now;
    }
    for seal in &known.seals {
        ensure_eq!(total("own seal", || stash.seal_secret(seal.conceal()))?.map_err(|e| bad(&e))?, Some(*seal), "own seal");
    }
    let mut seals = total("own seals", || stash.secret_seals().map(|i| i.collect::<Vec<_>>()))?.map_err(|e| bad(&e))?;
    seals.sort();
    ensure_eq!(seals, known.seals.iter().copied().collect::<Vec<_>>(), "own seals");
    let other: XChain<GraphSeal> = XChain::with(Layer1::Bitcoin, GraphSeal::with_blinded_vout(bp::seals::txout::CloseMethod::OpretFirst, 4u32, 4));
    if !known.seals.contains(&other) {
        ensure_eq!(total("own seal", || stash.seal_secret(other.conceal()))?.map_err(|e| bad(&e))?, None, "unknown seal");
    }
    // Interfaces are described by their supplements
    for info in total("interfaces", || stock.ifaces().map(|i| i.collect::<Vec<_>>()))?.map_err(|e| bad(&e))? {
        let list = known.suppl.get(&ContentRef::Iface(info.id)).cloned().unwrap_or_default();
        let told = list
            .iter()
            .map(|s| {
                (
                    s.get_default_opt::<IfaceClassName>(SupplSub::Itself, SUPPL_ANNOT_IFACE_CLASS),
                    s.get_default_opt::<FeatureList>(SupplSub::Itself, SUPPL_ANNOT_IFACE_FEATURES).unwrap_or_default(),
                )
            })
            .collect::<Vec<_>>();
        let got = (info.standard.clone(), info.features.clone());
        ensure!(told.contains(&got) || (told.is_empty() && got == (None, FeatureList::default())), "interface is described as {got:?} by none of supplements");
    }
    Ok(())
}

/// Whether exported information is what the stock knows.
fn exported<const T: bool>(c: &Consignment<T>, stock: &Stock, known: &Known, cov: &mut Cov) -> Res {
    let mut refs = vec![
        (ContentRef::Genesis(c.contract_id()), ContentId::Genesis(c.contract_id())),
        (ContentRef::Schema(c.schema.schema_id()), ContentId::Schema(c.schema.schema_id())),
    ];
    for (i, ii) in c.ifaces.iter() {
        refs.push((ContentRef::Iface(i.iface_id()), ContentId::Iface(i.iface_id())));
        refs.push((ContentRef::IfaceImpl(ii.impl_id()), ContentId::IfaceImpl(ii.impl_id())));
    }
    let stash = stock.as_stash_provider();
    for (r, id) in &refs {
        let list = c.supplements.iter().filter(|s| s.content_id == *r).collect::<Vec<_>>();
        let told = known.suppl.get(r).cloned().unwrap_or_default();
        ensure_eq!(list.len(), told.len().min(1), "number of supplements of {r} in an exported consignment");
        ensure!(list.iter().all(|s| told.contains(s)), "exported supplement was never imported");
        let sigs = stash.sigs_for(id).map_err(|e| Fail::new(format!("{e}")))?;
        ensure!(c.signatures.get(id) == sigs, "exported signatures of {id:?} are not these which are known");
        cov.class_if(!list.is_empty(), "exported-supplement");
        cov.class_if(sigs.is_some(), "exported-signatures");
    }
    ensure!(c.supplements.iter().all(|s| refs.iter().any(|r| r.0 == s.content_id)), "unrelated supplement is exported");
    ensure!(c.signatures.keys().all(|s| refs.iter().any(|r| r.1 == *s)), "unrelated signature is exported");
    Ok(())
}

fn extra(x: &Extra, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let mut world = run_history(&h, Flags::default(), cov, |_, _| Ok(()))?;
    let w = x.wallet as usize % WALLETS;
    let refs = contents(&world, w);
    let bad = |e: &dyn std::fmt::Display| Fail::new(format!("{e}"));
    let mut known = Known { seals: world.wallets[w].m.seals.iter().copied().collect(), ..default!() };
    let mut stock = clone_stock(&world.wallets[w].stock)?;
    let core = facts(&stock, false)?;
    let layer1 = world.layer1;
    let mut count = 0;
    for more in &x.more {
        match more {
            More::Kit(suppl, sigs) => {
                let suppl = suppl_list(suppl, &refs);
                let sigs = sig_list(sigs, &refs, &suppl);
                let mut kit = Kit::default();
                kit.supplements = Confined::try_from(suppl.clone()).unwrap();
                for (id, list) in &sigs {
                    kit.signatures.insert(*id, ContentSigs::from(Confined::try_from(list.clone()).unwrap())).expect("few signatures");
                }
                let kit = kit.validate().map_err(|_| Fail::new("kit is not valid"))?;
                total("importing a kit", || stock.import_kit(kit))?.map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
                known.learn(&suppl, &sigs);
                count += 1;
            }
            More::Contract(n, suppl, sigs) => {
                let ids = world.wallets[w].m.contracts.keys().copied().collect::<Vec<_>>();
                if ids.is_empty() {
                    continue;
                }
                let id = ids[*n as usize % ids.len()];
                let suppl = suppl_list(suppl, &refs);
                let sigs = sig_list(sigs, &refs, &suppl);
                let mut c = total("exporting", || stock.export_contract(id))?.map_err(|e| Fail::new(format!("contract was not exported: {e}")))?;
                c.supplements = Confined::try_from(suppl.clone()).unwrap();
                c.signatures = none!();
                for (id, list) in &sigs {
                    c.signatures.insert(*id, ContentSigs::from(Confined::try_from(list.clone()).unwrap())).expect("few signatures");
                }
                let c = total("validation", || c.validate(&world.chain, world.testnet))?.map_err(|(s, _)| Fail::new(format!("contract is not valid: {s}")))?;
                total("importing a contract", || stock.import_contract(c, &world.chain))?.map_err(|e| Fail::new(format!("contract was not imported: {e}")))?;
                known.learn(&suppl, &sigs);
                count += 1;
            }
            More::Trust(who, level) => {
                let level = TrustLevel::try_from(*level % 5).unwrap_or_default();
                let who = odd_identity(*who as u64);
                total("setting trust", || stock.as_stash_provider_mut().set_trust(who.clone(), level))?.map_err(|e| bad(&e))?;
                ensure_eq!(total("trust", || stock.as_stash_provider().get_trust(&who))?.map_err(|e| bad(&e))?, level, "trust level");
                match level.should_accept() {
                    true => known.untrusted.remove(&who),
                    false => known.untrusted.insert(who),
                };
                cov.class("trust");
            }
            More::Seal(a, b, blinding, opret) => {
                let method = if *opret { bp::seals::txout::CloseMethod::OpretFirst } else { bp::seals::txout::CloseMethod::TapretFirst };
                let seal: XChain<GraphSeal> = match a % 4 {
                    0 => XChain::with(layer1, GraphSeal::with_blinded_vout(method, *b as u32 % 3, *blinding)),
                    a => XChain::with(layer1, bp::seals::txout::BlindSeal::with_blinding(method, txid(a as u64), *b as u32 % 3, *blinding)),
                };
                let new = total("storing a seal", || stock.store_secret_seal(seal))?.map_err(|e| Fail::new(format!("seal was not stored: {e}")))?;
                ensure_eq!(new, known.seals.insert(seal), "whether a seal is new");
                cov.class("seal");
            }
            More::Reload => {
                stock = clone_stock(&stock)?;
            }
        }
        compare(&stock, &mut known, &refs, cov)?;
    }
    cov.nontrivial_if(count > 1);
    // Nothing else is affected
    const OTHER: &[&str] = &["state ", "alloc ", "contract ", "valid ", "bundle ", "operation ", "assigning "];
    let now = facts(&stock, false)?;
    ensure!(now.only(OTHER) == core.only(OTHER), "additional information changes the state");
    // Exports carry it
    let mut fresh = Stock::in_memory();
    let ids = world.wallets[w].m.contracts.keys().copied().collect::<Vec<_>>();
    for id in ids {
        let c = total("exporting", || stock.export_contract(id))?.map_err(|e| Fail::new(format!("contract was not exported: {e}")))?;
        exported(&c, &stock, &known, cov)?;
        let outs = world.wallets[w].m.view(id).into_iter().map(|((_, s), _)| s).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
        let t = total("exporting", || stock.transfer(id, outs, None))?.map_err(|e| Fail::new(format!("transfer was not exported: {e}")))?;
        exported(&t, &stock, &known, cov)?;
        let mut got = Known::default();
        let sigs = c.signatures.iter().map(|(id, s)| (*id, s.clone().into_iter().collect::<BTreeMap<_, _>>())).collect::<BTreeMap<_, _>>();
        got.learn(&c.supplements.iter().cloned().collect(), &sigs);
        let all = c.signatures.clone();
        let c = total("validation", || c.validate(&world.chain, world.testnet))?.map_err(|(s, _)| Fail::new(format!("exported contract is not valid: {s}")))?;
        total("importing a contract", || fresh.import_contract(c, &world.chain))?.map_err(|e| Fail::new(format!("exported contract was not imported: {e}")))?;
        let stash = fresh.as_stash_provider();
        for (r, list) in &got.suppl {
            let now = stash.supplements(*r).map_err(|e| bad(&e))?.collect::<BTreeSet<_>>();
            ensure!(list.is_subset(&now), "supplements are lost by the receiver");
        }
        for (id, list) in all.iter() {
            ensure!(stash.sigs_for(id).map_err(|e| bad(&e))? == Some(list), "signatures are lost by the receiver");
        }
    }
    let _ = &mut world;
    Ok(())
}

fn extras(x: Weights, max: usize, weights: [u32; 5]) -> impl Strategy<Value = Extra> {
    let who = || prop_oneof![3 => 0u8..4, 1 => any::<u8>()];
    let suppl = || vec((any::<u8>(), who(), any::<u64>()), 0..6);
    let sigs = || prop_oneof![4 => vec((any::<u8>(), who(), 0u64..40), 0..8), 1 => vec((0u8..3, any::<u8>(), 0u64..40), 8..24)];
    let more = prop_oneof![
        weights[0] => (suppl(), sigs()).prop_map(|(a, b)| More::Kit(a, b)),
        weights[1] => (any::<u8>(), suppl(), sigs()).prop_map(|(n, a, b)| More::Contract(n, a, b)),
        weights[2] => (who(), any::<u8>()).prop_map(|(a, b)| More::Trust(a, b)),
        weights[3] => (any::<u8>(), any::<u8>(), prop_oneof![0u64..3, any::<u64>()], any::<bool>()).prop_map(|(a, b, c, d)| More::Seal(a, b, c, d)),
        weights[4] => Just(More::Reload),
    ];
    (any::<u8>(), vec(more, 1..10), busy(x, max)).prop_map(|(wallet, more, h)| Extra { wallet, more, liquid: h.liquid, testnet: h.testnet, steps: h.steps })
}

const CALM: Weights = Weights { deliver: 4, send: 2, share: 2, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };

fn hints(h: &History, cov: &mut Cov) -> Res {
    let world = run_history(h, Flags { hints: true, ..default!() }, cov, |_, _| Ok(()))?;
    cov.nontrivial_if(world.stats.get("hinted").is_some());
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("more than two annotations at once, more than one import, or a payment with hinted change");
    ctx.check("annotations", 4000, 200000, annots, annotate);
    ctx.check("kept", 500, 20000, || extras(CALM, 3, [6, 2, 1, 1, 1]), extra);
    ctx.check("hints", 1500, 20000, || history(CALM, 8), hints);
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("more than one import");
    ctx.check("kept", 900, 30000, || extras(CALM, 3, [6, 2, 2, 4, 1]), extra);
}

// ---------------------------------------------------------------------------
// C27: listings

#[derive(Clone, Default)]
pub struct TestClass;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TestInfo {
    id: ContractId,
    spec: Vec<u8>,
}

pub struct TestWrapper<S: ContractStateRead>(ContractIface<S>);

impl<S: ContractStateRead> IfaceWrapper<S> for TestWrapper<S> {
    type Info = TestInfo;
    fn with(iface: ContractIface<S>) -> Self { Self(iface) }
    fn info(&self) -> TestInfo {
        let spec = self.0.global("spec").map(|mut i| i.next().map(|v| format!("{v:?}").into_bytes()).unwrap_or_default()).unwrap_or_default();
        TestInfo { id: self.contract_id(), spec }
    }
    fn contract_id(&self) -> ContractId { self.0.contract_id() }
    fn witness_info(&self, id: rgb::vm::XWitnessId) -> Option<rgbstd::WitnessInfo> { self.0.witness_info(id) }
    fn schema_id(&self) -> SchemaId { self.0.schema.schema_id() }
}

const TEST_IFACE: IfaceId = IfaceId::from_array([
    140, 100, 31, 159, 154, 141, 79, 24, 118, 234, 18, 136, 233, 92, 61, 88, 96, 181, 84, 3, 223, 245, 122, 140, 117, 40, 150, 173, 16, 4, 122, 230,
]);

impl IfaceClass for TestClass {
    const IFACE_NAME: &'static str = "TestAsset";
    const IFACE_IDS: &'static [IfaceId] = &[IfaceId::from_array([1; 32]), TEST_IFACE];
    type Wrapper<S: ContractStateRead> = TestWrapper<S>;
    fn stl(&self) -> strict_types::TypeLib { rgbstd::stl::rgb_contract_stl() }
    fn iface(&self) -> Iface { iface(false) }
    fn iface_id(&self) -> IfaceId { TEST_IFACE }
}

/// Variants of an interface, a schema and an implementation.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Listed {
    /// (name, timestamp, developer, inherits)
    pub ifaces: Vec<(u8, i64, u8, Vec<u8>)>,
    pub schemata: Vec<(u8, i64, u8)>,
    /// (schema, interface, timestamp, developer)
    pub impls: Vec<(u8, u8, i64, u8)>,
    pub order: u64,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn date(t: i64) -> Option<chrono::DateTime<Utc>> { Utc.timestamp_opt(t, 0).single() }

fn listed(x: &Listed, cov: &mut Cov) -> Res {
    let env = &envs()[0].0;
    let mut ifaces: Vec<Iface> = vec![];
    for (n, t, d, up) in &x.ifaces {
        let mut i = env.iface.clone();
        // a name may be the beginning of another one or differ from it in case
        let tail = match n % 3 {
            0 => format!("{n}x{}", ifaces.len()),
            1 => "x".repeat(ifaces.len()),
            _ => "X".repeat(ifaces.len()),
        };
        let name = TypeName::from_str(&format!("Face{tail}")).unwrap();
        if ifaces.iter().any(|i| i.name == name) {
            continue;
        }
        i.name = name;
        i.timestamp = *t;
        i.developer = odd_identity(*d as u64);
        let mut up = up.iter().filter(|_| !ifaces.is_empty()).map(|u| ifaces[*u as usize % ifaces.len().max(1)].iface_id()).collect::<BTreeSet<_>>();
        if d % 8 == 0 {
            up.insert(IfaceId::from([*d; 32]));
        }
        i.inherits = Confined::try_from(up.into_iter().collect::<Vec<_>>()).unwrap();
        ifaces.push(i);
    }
    let mut schemata: Vec<Schema> = vec![];
    for (n, t, d) in &x.schemata {
        let mut s = env.schema.clone();
        s.name = TypeName::from_str(&format!("Schema{}x{}", n, schemata.len())).unwrap();
        s.timestamp = *t;
        s.developer = odd_identity(*d as u64);
        schemata.push(s);
    }
    let mut impls: BTreeMap<(SchemaId, IfaceId), IfaceImpl> = bmap! {};
    for (s, i, t, d) in &x.impls {
        if ifaces.is_empty() || schemata.is_empty() {
            break;
        }
        let mut ii = env.iimpl.clone();
        ii.schema_id = schemata[*s as usize % schemata.len()].schema_id();
        ii.iface_id = ifaces[*i as usize % ifaces.len()].iface_id();
        ii.timestamp = *t;
        ii.developer = odd_identity(*d as u64);
        impls.insert((ii.schema_id, ii.iface_id), ii);
    }
    let mut stock = Stock::in_memory();
    // in one kit or in several
    let mut kits = vec![];
    let parts = 1 + x.order as usize % 3;
    for n in 0..parts {
        let mut kit = env.kit();
        kit.schemata = none!();
        kit.ifaces = none!();
        kit.iimpls = none!();
        for (k, i) in ifaces.iter().enumerate() {
            if mix(x.order, k as u64) as usize % parts == n {
                kit.ifaces.push(i.clone()).expect("few");
            }
        }
        for (k, i) in schemata.iter().enumerate() {
            if mix(x.order, 50 + k as u64) as usize % parts == n {
                kit.schemata.push(i.clone()).expect("few");
            }
        }
        if n + 1 == parts {
            for i in impls.values() {
                kit.iimpls.push(i.clone()).expect("few");
            }
        }
        kits.push(kit);
    }
    for kit in kits {
        let kit = kit.validate().map_err(|_| Fail::new("kit is not valid"))?;
        total("importing a kit", || stock.import_kit(kit))?.map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
    }
    let bad = |e: &dyn std::fmt::Display| Fail::new(format!("{e}"));
    let infos = total("interfaces", || stock.ifaces().map(|i| i.collect::<Vec<_>>()))?.map_err(|e| bad(&e))?;
    ensure_eq!(infos.len(), ifaces.len(), "number of listed interfaces");
    for i in &ifaces {
        let Some(info) = infos.iter().find(|info| info.id == i.iface_id()) else { fail!("interface {} is not listed", i.name) };
        ensure_eq!(info.name, i.name, "name");
        ensure_eq!(info.developer, i.developer, "developer");
        ensure_eq!(info.version, i.version, "version");
        ensure_eq!(info.default_op, i.default_operation, "default operation");
        if let Some(d) = date(i.timestamp) {
            ensure_eq!(info.created_at, d, "date");
        }
        let up = i.inherits.iter().map(|id| ifaces.iter().find(|i| i.iface_id() == *id).map(|i| IfaceRef::Name(i.name.clone())).unwrap_or(IfaceRef::Id(*id))).collect::<BTreeSet<_>>();
        ensure_eq!(info.inherits.iter().cloned().collect::<BTreeSet<_>>(), up, "inherited interfaces");
        ensure_eq!(info.inherits.len(), i.inherits.len(), "inherited interfaces");
        cov.class_if(!up.is_empty(), "inherits");
        let text = info.to_string();
        for part in [i.name.to_string(), i.iface_id().to_string(), i.developer.to_string(), info.created_at.format("%Y-%m-%d").to_string()] {
            ensure!(text.contains(&part), "description of an interface doesn't have {part}: {text}");
        }
        // found in all the ways
        for r in [IfaceRef::Name(i.name.clone()), IfaceRef::Id(i.iface_id())] {
            let got = total("interface", || stock.iface(r.clone()).map(strict))?.map_err(|e| bad(&e))?;
            ensure!(got == strict(i), "another interface is found by {r}");
        }
    }
    for i in &ifaces {
        let n = i.name.to_string();
        for name in [n[..n.len() - 1].to_owned(), format!("{n}x"), n.to_uppercase(), n.to_lowercase()] {
            let Ok(name) = TypeName::from_str(&name) else { continue };
            if ifaces.iter().all(|i| i.name != name) {
                ensure!(stock.iface(IfaceRef::Name(name.clone())).is_err(), "interface is found by a name {name} which none has");
            }
        }
    }
    ensure!(stock.iface(IfaceRef::Id(IfaceId::from([9; 32]))).is_err(), "unknown interface is found");
    ensure!(stock.iface(IfaceRef::Name(TypeName::from_str("Unknown").unwrap())).is_err(), "unknown interface is found");
    let infos = total("schemata", || stock.schemata().map(|i| i.collect::<Vec<_>>()))?.map_err(|e| bad(&e))?;
    ensure_eq!(infos.len(), schemata.len(), "number of listed schemata");
    for s in &schemata {
        let id = s.schema_id();
        let Some(info) = infos.iter().find(|info| info.id == id) else { fail!("schema {} is not listed", s.name) };
        ensure_eq!(info.name, s.name, "name");
        ensure_eq!(info.developer, s.developer, "developer");
        if let Some(d) = date(s.timestamp) {
            ensure_eq!(info.created_at, d, "date");
        }
        let expect = impls.iter().filter(|(k, _)| k.0 == id).map(|(k, ii)| (ii.impl_id(), k.1, ifaces.iter().find(|i| i.iface_id() == k.1).unwrap().name.clone(), ii.developer.clone(), date(ii.timestamp))).collect::<BTreeSet<_>>();
        let got = info
            .implements
            .iter()
            .map(|i| {
                let ts = impls.get(&(id, i.iface_id)).and_then(|i| date(i.timestamp));
                (i.id, i.iface_id, i.iface_name.clone(), i.developer.clone(), ts.map(|_| i.created_at))
            })
            .collect::<BTreeSet<_>>();
        ensure_eq!(got, expect, "implementations");
        ensure_eq!(info.implements.len(), expect.len(), "implementations");
        cov.nontrivial_if(!expect.is_empty());
        let text = info.to_string();
        for part in [s.name.to_string(), id.to_string(), s.developer.to_string()].into_iter().chain(expect.iter().flat_map(|e| [e.0.to_string(), e.2.to_string()])) {
            ensure!(text.contains(&part), "description of a schema doesn't have {part}: {text}");
        }
        // exported with everything which is needed for it
        let kit = total("exporting a schema", || stock.export_schema(id))?.map_err(|e| Fail::new(format!("schema was not exported: {e}")))?;
        ensure!(kit.schemata.len() == 1 && kit.schemata.iter().all(|o| strict(o) == strict(s)), "another schema is exported");
        let mut other = Stock::in_memory();
        total("importing a kit", || other.import_kit(kit))?.map_err(|e| Fail::new(format!("exported schema was not imported: {e}")))?;
        let again = total("schemata", || other.schemata().map(|i| i.collect::<Vec<_>>()))?.map_err(|e| bad(&e))?;
        ensure!(again.len() == 1, "number of schemata after an export");
        ensure_eq!(again[0].id, info.id, "exported schema");
        ensure_eq!(again[0].implements.iter().map(|i| i.id).collect::<Vec<_>>(), info.implements.iter().map(|i| i.id).collect::<Vec<_>>(), "exported implementations");
        for i in &info.implements {
            ensure!(total("builder", || other.contract_builder(Identity::default(), id, i.iface_id).map(|_| ()))?.is_ok(), "contract can't be issued with an exported schema");
        }
    }
    ensure!(stock.schema(SchemaId::from([9; 32])).is_err() && stock.export_schema(SchemaId::from([9; 32])).is_err(), "unknown schema is found");
    ensure!(stock.contracts().map_err(|e| bad(&e))?.next().is_none(), "contract in a stock without contracts");
    Ok(())
}

fn contracts(h: &History, cov: &mut Cov) -> Res {
    let world = run_history(h, Flags::default(), cov, |_, _| Ok(()))?;
    let bad = |e: &dyn std::fmt::Display| Fail::new(format!("{e}"));
    let geneses = world.sent.iter().filter(|s| !s.0).filter_map(|s| from_bytes::<Contract>(s.1.clone()).ok()).map(|c| (c.contract_id(), c.genesis)).collect::<HashMap<_, _>>();
    let class = TestClass::IFACE_IDS.contains(&envs()[0].0.iface.iface_id());
    for w in &world.wallets {
        let infos = total("contracts", || w.stock.contracts().map(|i| i.collect::<Vec<_>>()))?.map_err(|e| bad(&e))?;
        let expect = w.m.contracts.keys().copied().collect::<BTreeSet<_>>();
        ensure_eq!(infos.iter().map(|i| i.id).collect::<BTreeSet<_>>(), expect, "listed contracts");
        ensure_eq!(infos.len(), expect.len(), "listed contracts");
        cov.nontrivial_if(expect.len() > 1);
        for info in &infos {
            let g = &geneses[&info.id];
            ensure_eq!(info.schema_id, g.schema_id, "schema");
            ensure_eq!(info.issuer, g.issuer, "issuer");
            ensure_eq!(info.testnet, g.testnet, "network");
            ensure_eq!(info.alt_layers1, g.alt_layers1, "layers");
            ensure_eq!(Some(info.issued_at), date(g.timestamp), "date of issue");
            ensure!(total("contract info", || w.stock.contract_info(info.id))?.map_err(|e| bad(&e))? == *info, "contract is described in different ways");
            let text = info.to_string();
            for part in [info.id.to_string(), info.schema_id.to_string(), info.issuer.to_string(), info.issued_at.format("%Y-%m-%d").to_string()] {
                ensure!(text.contains(&part), "description of a contract doesn't have {part}: {text}");
            }
        }
        ensure!(total("contract info", || w.stock.contract_info(ContractId::from([9; 32])))?.is_err(), "unknown contract is found");
        if class {
            for id in expect.iter().filter(|id| world.env_of(**id) == 2) {
                ensure!(total("contract by class", || w.stock.contract_iface_class::<TestClass>(*id).map(|_| ()))?.is_err(), "contract is found by a class which it doesn't implement");
            }
            let expect = expect.into_iter().filter(|id| world.env_of(*id) != 2).collect::<BTreeSet<_>>();
            let list = total("contracts by class", || w.stock.contracts_by::<TestClass>().map(|i| i.collect::<Vec<_>>()))?.map_err(|e| bad(&e))?;
            ensure_eq!(list.iter().map(|i| i.id).collect::<BTreeSet<_>>(), expect, "contracts of a class");
            ensure_eq!(list.len(), expect.len(), "contracts of a class");
            ensure!(list.iter().all(|i| !i.spec.is_empty()), "global state is not found through a class");
            ensure!(total("contract by class", || w.stock.contract_iface_class::<TestClass>(ContractId::from([9; 32])).map(|_| ()))?.is_err(), "unknown contract is found");
            cov.class_if(!list.is_empty(), "by-class");
        }
    }
    Ok(())
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("a schema with implementations, or a stock with several contracts");
    let time = || prop_oneof![3 => 0i64..2_000_000_000, 1 => Just(i64::MAX), 1 => any::<i64>()];
    ctx.check("kits", 6000, 50000, || {
        (
            vec((any::<u8>(), time(), any::<u8>(), vec(any::<u8>(), 0..3)), 0..5),
            vec((any::<u8>(), time(), any::<u8>()), 0..4),
            vec((any::<u8>(), any::<u8>(), time(), any::<u8>()), 0..6),
            any::<u64>(),
        )
            .prop_map(|(ifaces, schemata, impls, order)| Listed { ifaces, schemata, impls, order, liquid: false, testnet: false, steps: vec![] })
    }, listed);
    ctx.check("contracts", 2000, 20000, || history(CALM, 6), contracts);
}
