//! C07: identifiers.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};
use std::str::FromStr;

use amplify::confinement::Confined;
use commit_verify::Conceal;
use proptest::prelude::*;
use rgb::*;
use rgbstd::containers::*;
use rgbstd::interface::{Iface, IfaceId, IfaceImpl, ImplId};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode};

use crate::alter::*;
use crate::boxes::{boxed, item, odd_sigs, odd_supplement, Boxed, Item};
use crate::build::*;
use crate::frame::*;
use crate::gen::*;
use crate::merge;
use crate::world::{mix, remake, EVEN};
use crate::{ensure, ensure_eq, fail};

// ---------------------------------------------------------------------------
// Texts

/// Id of some kind: its text, and whether other texts are read as it.
fn text<T>(bytes: [u8; 32], hri: &str) -> Res<String>
where T: From<[u8; 32]> + Copy + Eq + Debug + Display + FromStr + Serialize + DeserializeOwned {
    let id = T::from(bytes);
    let s = id.to_string();
    ensure!(s.strip_prefix(hri).is_some_and(|s| s.starts_with(':') && !s[1..].contains(':')), "id {s} doesn't start with {hri}");
    let all = [s.clone(), s.split('#').next().unwrap().replace('-', ""), s.split('#').next().unwrap().to_string(), s.split(':').last().unwrap().to_string()];
    for s in &all {
        match total("reading an id", || s.parse::<T>().ok())? {
            Some(x) if x == id => {}
            x => fail!("id {s} is read as {x:?}"),
        }
    }
    let json = serde_json::to_string(&id).map_err(|e| Fail::new(format!("id is not written: {e}")))?;
    ensure!(json.contains(s.split(':').last().unwrap()), "JSON form of id {s} is {json}");
    let back = serde_json::from_str::<T>(&json).map_err(|e| Fail::new(format!("id is not read: {e}")))?;
    ensure_eq!(back, id, "id read from JSON");
    Ok(s)
}

fn other<T>(text: &str, hri: &str) -> Res
where T: From<[u8; 32]> + Copy + Eq + Debug + Display + FromStr {
    // a text of this kind, or an error
    if let Some(id) = total("reading an id", || text.parse::<T>().ok())? {
        let (kind, body) = text.rsplit_once(':').unwrap_or((hri, text));
        ensure!(kind == hri, "{text} is read as {id}");
        let plain = |s: &str| s.split('#').next().unwrap().replace('-', "");
        let again = id.to_string();
        let printed = plain(again.rsplit_once(':').unwrap().1);
        // checksum may follow the payload
        ensure!(plain(body).starts_with(&printed[..printed.len() - 1]), "{text} is read as {id}");
    }
    Ok(())
}

type Kind = (&'static str, fn([u8; 32], &str) -> Res<String>, fn(&str, &str) -> Res);

fn kinds() -> Vec<Kind> {
    vec![
        ("rgb", text::<ContractId>, other::<ContractId>),
        ("rgb:sch", text::<SchemaId>, other::<SchemaId>),
        ("rgb:fs", text::<AttachId>, other::<AttachId>),
        ("rgb:csg", text::<ConsignmentId>, other::<ConsignmentId>),
        ("rgb:kit", text::<KitId>, other::<KitId>),
        ("rgb:sup", text::<SupplId>, other::<SupplId>),
        ("rgb:ifc", text::<IfaceId>, other::<IfaceId>),
        ("rgb:imp", text::<ImplId>, other::<ImplId>),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Texts {
    pub bytes: [u8; 32],
    pub edits: Vec<Edit>,
}

fn texts(x: &Texts, cov: &mut Cov) -> Res {
    let all = kinds();
    cov.nontrivial_if(true);
    for (hri, text, _) in &all {
        let s = text(x.bytes, hri)?;
        for (h, _, other) in &all {
            other(&s, h)?;
            other(&apply_edits(&s, &x.edits), h)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// Content

/// Known ids with the content they were given to.
struct Seen<'a> {
    name: &'static str,
    ids: BTreeMap<[u8; 32], (Vec<Vec<u8>>, &'static str)>,
    cov: &'a mut Cov,
}

impl Seen<'_> {
    fn add(&mut self, id: [u8; 32], content: Vec<Vec<u8>>, how: &'static str) -> Res {
        let fresh = !self.ids.values().any(|c| c.0 == content);
        match self.ids.get(&id) {
            Some((c, was)) => {
                if let Some((a, b)) = c.iter().zip(&content).find(|(a, b)| a != b) {
                    let at = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
                    let near = |v: &[u8]| v[at.saturating_sub(40)..v.len().min(at + 20)].to_vec();
                    fail!("{}: different content ({was} and {how}) has the same id; there are {:x?} and {:x?} at {at}", self.name, near(a), near(b));
                }
            }
            None => ensure!(fresh, "{}: the same content ({how}) has different ids", self.name),
        }
        if fresh {
            self.cov.class(format!("{}-{how}", self.name));
            self.cov.nontrivial_if(self.ids.len() > 3);
        }
        self.ids.insert(id, (content, how));
        Ok(())
    }
}

fn simple<T: StrictEncode + StrictDecode + Clone>(name: &'static str, v: &T, seed: u64, id: impl Fn(&T) -> [u8; 32], cov: &mut Cov) -> Res {
    let mut seen = Seen { name, ids: bmap! {}, cov };
    seen.add(id(v), vec![strict(v)], "original")?;
    seen.add(id(&decode::<T>(&strict(v)).ok_or_else(|| Fail::new(format!("{name} is not read")))?), vec![strict(v)], "again")?;
    for n in 0..6 {
        if let Some(o) = mutate(v, mix(seed, n)) {
            seen.add(id(&o), vec![strict(&o)], "altered")?;
        }
    }
    Ok(())
}

fn set<T: Ord + Clone, const MAX: usize>(s: &Confined<BTreeSet<T>, 0, MAX>, f: impl FnOnce(&mut Vec<T>)) -> Option<Confined<BTreeSet<T>, 0, MAX>> {
    let mut v = s.iter().cloned().collect::<Vec<_>>();
    f(&mut v);
    Confined::try_from(v.into_iter().collect::<BTreeSet<_>>()).ok()
}

/// All the ways to change a set: an item is removed, altered or repeated with a change.
fn set_changes<T: Ord + Clone + StrictEncode + StrictDecode, const MAX: usize>(s: &Confined<BTreeSet<T>, 0, MAX>, seed: u64) -> Vec<(Confined<BTreeSet<T>, 0, MAX>, u8)> {
    if s.is_empty() {
        return vec![];
    }
    let at = seed as usize % s.len();
    let mut out = vec![];
    out.extend(set(s, |v| drop(v.remove(at))).map(|s| (s, 0)));
    if let Some(o) = mutate(s.iter().nth(at).unwrap(), mix(seed, 1)) {
        out.extend(set(s, |v| v[at] = o.clone()).map(|s| (s, 1)));
        out.extend(set(s, |v| v.push(o)).map(|s| (s, 2)));
    }
    out
}

/// Everything to which the id of a kit is bound.
fn kit_content(k: &Kit) -> Vec<Vec<u8>> {
    vec![
        strict(&k.version),
        strict(&k.ifaces),
        strict(&k.schemata),
        strict(&k.iimpls),
        strict(&k.supplements),
        strict(&k.types),
        strict(&k.scripts),
        strict(&k.signatures),
    ]
}

fn kit(k: &Kit, seed: u64, cov: &mut Cov) -> Res {
    let mut seen = Seen { name: "kit", ids: bmap! {}, cov };
    let mut add = |k: &Kit, how| seen.add(id32(k.kit_id()), kit_content(k), how);
    add(k, "original")?;
    add(&decode::<Kit>(&strict(k)).ok_or_else(|| Fail::new("kit is not read"))?, "again")?;
    macro_rules! changes {
        ($($f:ident),*) => { $(
            for (s, how) in set_changes(&k.$f, mix(seed, stringify!($f).len() as u64)) {
                let mut o = k.clone();
                o.$f = s;
                add(&o, concat!(stringify!($f)).into())?;
                let _ = how;
            }
        )* };
    }
    changes!(ifaces, schemata, iimpls, supplements, scripts);
    let mut o = k.clone();
    o.types = none!();
    add(&o, "types")?;
    let mut o = k.clone();
    o.supplements.push(odd_supplement(ContentRef::Genesis(ContractId::from([seed as u8; 32])), seed)).expect("few supplements");
    add(&o, "supplements")?;
    for n in 0..2 {
        if let Some(s) = mutate(&k.signatures, mix(seed, n)) {
            let mut o = k.clone();
            o.signatures = s;
            add(&o, "signatures")?;
        }
    }
    let mut o = k.clone();
    o.signatures.insert(ContentId::Genesis(ContractId::from([seed as u8; 32])), odd_sigs(seed)).expect("few signatures");
    add(&o, "signatures")?;
    Ok(())
}

fn id32(id: impl amplify::ByteArray<32>) -> [u8; 32] { id.to_byte_array() }

/// There is nothing to hide in a right except for its seal.
fn rights<Seal: ExposedSeal>(a: &mut Assignments<Seal>) {
    for list in a.values_mut() {
        if let TypedAssigns::Declarative(v) = list {
            for a in v.iter_mut() {
                *a = match a.clone() {
                    Assign::ConfidentialState { seal, lock, .. } => Assign::Revealed { seal, state: none!(), lock },
                    Assign::Confidential { seal, lock, .. } => Assign::ConfidentialSeal { seal, state: none!(), lock },
                    a => a,
                };
            }
        }
    }
}

fn bare(mut g: Genesis) -> Genesis {
    rights(&mut g.assignments);
    g
}

/// Everything to which the id of a consignment is bound.
fn content<const T: bool>(c: &Consignment<T>) -> Vec<Vec<u8>> {
    vec![
        strict(&c.version),
        strict(&c.transfer),
        strict(&bare(c.genesis.clone())),
        c.ifaces.values().flat_map(strict).collect(),
        strict(&c.bundles),
        c.extensions.iter().cloned().flat_map(|mut e| {
            rights(&mut e.assignments);
            strict(&e)
        }).collect(),
        strict(&c.terminals),
        c.attachments.keys().flat_map(strict).collect(),
        strict(&c.supplements),
        strict(&c.types),
        strict(&c.scripts),
        strict(&c.signatures),
    ]
}

fn consignment<const T: bool>(c: &Consignment<T>, seed: u64, cov: &mut Cov) -> Res {
    let mut seen = Seen { name: if T { "transfer" } else { "contract" }, ids: bmap! {}, cov };
    seen.add(id32(c.consignment_id()), content(c), "original")?;
    if T {
        let o = c.clone().into_contract();
        seen.add(id32(o.consignment_id()), content(&o), "contract")?;
    }
    let mut add = |o: &Consignment<T>, how| seen.add(id32(o.consignment_id()), content(o), how);
    add(&decode(&strict(c)).ok_or_else(|| Fail::new("consignment is not read"))?, "again")?;
    let mut change = |how, f: &dyn Fn(&mut Consignment<T>) -> Option<()>| -> Res {
        let mut o = c.clone();
        match f(&mut o) {
            Some(()) => add(&o, how),
            None => Ok(()),
        }
    };
    for n in 0..3 {
        let seed = mix(seed, n);
        change("genesis", &|o| Some(o.genesis = mutate(&o.genesis, seed)?))?;
        change("genesis-item", &|o| mutate_item(&mut o.genesis.assignments, seed).then_some(()))?;
        change("terminals", &|o| Some(o.terminals = mutate(&o.terminals, seed)?))?;
        change("signatures", &|o| Some(o.signatures = mutate(&o.signatures, seed)?))?;
        change("implementations", &|o| {
            let mut list = o.ifaces.iter().map(|(i, ii)| (i.clone(), ii.clone())).collect::<Vec<_>>();
            let at = seed as usize % list.len().max(1);
            let (_, ii) = list.get_mut(at)?;
            *ii = mutate(ii, seed)?;
            o.ifaces = Confined::try_from(list.into_iter().collect::<BTreeMap<_, _>>()).ok()?;
            Some(())
        })?;
    }
    change("implementation-removed", &|o| {
        let key = o.ifaces.keys().next()?.clone();
        o.ifaces.remove(&key).ok()?.map(|_| ())
    })?;
    change("seals-concealed", &|o| Some(merge::conceal(&mut o.genesis.assignments, seed, false)))?;
    change("terminal-added", &|o| {
        let b = [mix(seed, 80) as u8; 32];
        o.terminals.insert(BundleId::from(b), XChain::with(Layer1::Bitcoin, SecretSeal::from(b))).ok().map(|_| ())
    })?;
    change("terminal-removed", &|o| {
        let key = *o.terminals.keys().next()?;
        o.terminals.remove(&key).ok()?.map(|_| ())
    })?;
    change("attachment-added", &|o| o.attachments.insert(attach_id(seed as u8), none!()).ok().map(|_| ()))?;
    change("attachment-removed", &|o| {
        let key = *o.attachments.keys().next()?;
        o.attachments.remove(&key).ok()?.map(|_| ())
    })?;
    change("types", &|o| Some(o.types = none!()))?;
    change("signature-added", &|o| o.signatures.insert(ContentId::Genesis(ContractId::from([seed as u8; 32])), odd_sigs(seed)).ok().map(|_| ()))?;
    change("supplement-added", &|o| o.supplements.push(odd_supplement(ContentRef::Genesis(o.contract_id()), seed)).ok())?;
    change("extension-added", &|o| {
        let mut e = Extension::strict_dumb();
        e.nonce = mix(seed, 5);
        o.extensions.push(e).ok()
    })?;
    for (s, how) in set_changes(&c.scripts, mix(seed, 11)) {
        change(["script-removed", "script-altered", "script-added"][how as usize], &|o| Some(o.scripts = s.clone()))?;
    }
    for (s, how) in set_changes(&c.supplements, mix(seed, 12)) {
        change(["supplement-removed", "supplement-altered", "supplement-repeated"][how as usize], &|o| Some(o.supplements = s.clone()))?;
    }
    for (s, how) in set_changes(&c.extensions, mix(seed, 13)) {
        change(["extension-removed", "extension-altered", "extension-repeated"][how as usize], &|o| Some(o.extensions = s.clone()))?;
    }
    let list = c.bundles.iter().cloned().collect::<Vec<_>>();
    if !list.is_empty() {
        let at = (seed >> 8) as usize % list.len();
        let put = |wb: Option<WitnessBundle>, o: &mut Consignment<T>| {
            let mut list = list.clone();
            match wb {
                Some(wb) => list[at] = wb,
                None => drop(list.remove(at)),
            }
            o.bundles = Confined::try_from(list.into_iter().collect::<BTreeSet<_>>()).ok()?;
            Some(())
        };
        change("bundle-removed", &|o| put(None, o))?;
        for n in 0..3 {
            change("bundle-altered", &|o| put(Some(mutate(&list[at], mix(seed, 20 + n))?), o))?;
        }
        for n in 0..2 {
            let wb = remake(&list[at], |b| {
                for t in b.known_transitions.values_mut() {
                    merge::conceal(&mut t.assignments, mix(seed, 30 + n), false);
                }
            });
            change("bundle-concealed", &|o| put(Some(wb.clone()), o))?;
        }
        let wb = remake(&list[at], |b| {
            if b.known_transitions.len() > 1 {
                let key = *b.known_transitions.keys().next().unwrap();
                let _ = b.known_transitions.remove(&key);
            }
        });
        change("transition-removed", &|o| put(Some(wb.clone()), o))?;
        let mut wb = list[at].clone();
        wb.pub_witness = wb.pub_witness.map_ref(|w| match w {
            PubWitness::Tx(tx) => PubWitness::Txid(tx.txid()),
            PubWitness::Txid(txid) => PubWitness::Txid(*txid),
        });
        change("transaction-id", &|o| put(Some(wb.clone()), o))?;
    }
    Ok(())
}

fn operations<const T: bool>(c: &Consignment<T>, seed: u64) -> Res {
    let all = [0, u64::MAX, seed, mix(seed, 1)];
    for m in all {
        let mut g = c.genesis.clone();
        merge::conceal(&mut g.assignments, m, true);
        ensure_eq!(g.contract_id(), c.genesis.contract_id(), "id of a partly concealed contract");
        ensure_eq!(c.genesis.conceal().contract_id(), c.genesis.contract_id(), "id of a concealed contract");
        for wb in c.bundles.iter() {
            for (_, b) in wb.anchored_bundles() {
                let mut o = b.clone();
                for t in o.known_transitions.values_mut() {
                    let id = t.id();
                    merge::conceal(&mut t.assignments, m, true);
                    ensure_eq!(t.id(), id, "id of a partly concealed transition");
                }
                ensure_eq!(o.bundle_id(), b.bundle_id(), "id of a partly concealed bundle");
            }
        }
    }
    Ok(())
}

fn bound(x: &Boxed, cov: &mut Cov) -> Res {
    let it = item(x, cov)?;
    cov.class(it.name());
    let one = |i: Option<&Iface>, ii: Option<&IfaceImpl>, s: Option<&Schema>, su: Vec<&Supplement>, cov: &mut Cov| -> Res {
        if let Some(i) = i {
            simple("interface", i, x.seed, |i| id32(i.iface_id()), cov)?;
        }
        if let Some(i) = ii {
            simple("implementation", i, x.seed, |i| id32(i.impl_id()), cov)?;
        }
        if let Some(i) = s {
            simple("schema", i, x.seed, |i| id32(i.schema_id()), cov)?;
        }
        for i in su {
            simple("supplement", i, x.seed, |i| id32(i.suppl_id()), cov)?;
        }
        Ok(())
    };
    match &it {
        Item::Kit(k) => {
            one(k.ifaces.iter().next(), k.iimpls.iter().next(), k.schemata.iter().next(), k.supplements.iter().collect(), cov)?;
            kit(k, x.seed, cov)
        }
        Item::Contract(c) => {
            operations(c, x.seed)?;
            consignment(c, x.seed, cov)
        }
        Item::Transfer(c) => {
            operations(c, x.seed)?;
            consignment(c, x.seed, cov)
        }
        _ => Ok(()),
    }
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("content with at least three different alterations, or any id as a text");
    let x = crate::world::Weights { deliver: 6, send: 3, share: 2, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };
    ctx.check("bound", 1100, 40000, || boxed(x, 6).prop_map(|mut b| {
        b.kind %= 8;
        b.edits.clear();
        b.texts.clear();
        b
    }), bound);
    ctx.check("texts", 30000, 1000000, || (b32(), proptest::collection::vec(edit(), 1..3)).prop_map(|(bytes, edits)| Texts { bytes, edits }), texts);
}
