//! C17, C19, C20: imports in any order, saving and loading, failing storage.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use amplify::confinement::Confined;

use commit_verify::Conceal;
use nonasync::persistence::{PersistenceError, PersistenceProvider};
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::*;
use rgbstd::containers::*;
use rgbstd::persistence::fs::FsBinStore;
use rgbstd::persistence::*;
use serde::{Deserialize, Serialize};

use crate::alter::{claim_length, concealed_amounts, sample_world};
use crate::build::*;
use crate::env::*;
use crate::frame::*;
use crate::mem::*;
use crate::world::*;
use crate::{ensure, ensure_eq, fail};

// ---------------------------------------------------------------------------
// Everything a stock reports

/// Everything a stock reports in answers to queries.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Facts {
    /// Answers which may be only extended.
    pub facts: BTreeSet<String>,
    /// Answers which depend on the whole of the content.
    pub views: BTreeMap<String, String>,
}

pub fn sum(b: &[u8]) -> String {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    format!("{h:016x}")
}

impl Facts {
    fn put(&mut self, s: String) { self.facts.insert(s); }

    /// All the facts with the given prefixes.
    pub fn only(&self, prefixes: &[&str]) -> BTreeSet<String> {
        self.facts.iter().filter(|f| prefixes.iter().any(|p| f.starts_with(p))).cloned().collect()
    }

    pub fn same(&self, other: &Facts, what: &str) -> Res {
        if self == other {
            return Ok(());
        }
        let a = self.facts.difference(&other.facts).take(4).collect::<Vec<_>>();
        let b = other.facts.difference(&self.facts).take(4).collect::<Vec<_>>();
        let v = self
            .views
            .iter()
            .filter(|(k, v)| other.views.get(*k) != Some(v))
            .map(|(k, v)| (k, v, other.views.get(k)))
            .chain(other.views.iter().filter(|(k, _)| !self.views.contains_key(*k)).map(|(k, v)| (k, v, None)))
            .take(3)
            .collect::<Vec<_>>();
        fail!("{what}: only in the first {a:#?}; only in the second {b:#?}; different {v:#?}")
    }

    pub fn extended_by(&self, other: &Facts, what: &str) -> Res {
        let lost = self.facts.difference(&other.facts).take(5).collect::<Vec<_>>();
        ensure!(lost.is_empty(), "{what}: lost {lost:#?}");
        Ok(())
    }
}

fn op_facts<Seal: ExposedSeal>(f: &mut Facts, opid: OpId, a: &Assignments<Seal>) {
    for i in items(a) {
        let at = format!("{opid}/{}/{}", i.ty, i.no);
        f.put(format!("secret {at} = {}", i.secret));
        if let Some(seal) = i.seal {
            f.put(format!("seal {at} = {seal:?}"));
        }
        if let Some(state) = i.state {
            f.put(format!("state {at} = {state:?}"));
        }
    }
}

/// Asks the stock about everything it can be asked about. With `exports` the
/// exported objects are compared too.
pub fn facts(stock: &Stock, exports: bool) -> Res<Facts> { total("querying a stock", || facts_of(stock, exports))? }

fn facts_of(stock: &Stock, exports: bool) -> Res<Facts> {
    let bad = |e: &dyn std::fmt::Display| Fail::new(format!("stock can't be read: {e}"));
    let mut f = Facts::default();
    let stash = stock.as_stash_provider();
    let state = stock.as_state_provider();
    let index = stock.as_index_provider();

    let types = stash.type_system().map_err(|e| bad(&e))?;
    let mut used = bset![];
    let mut contents = vec![];
    for iface in stash.ifaces().map_err(|e| bad(&e))? {
        f.put(format!("iface {} {} {}", iface.iface_id(), iface.name, sum(&strict(iface))));
        used.extend(iface.types());
        contents.push((ContentRef::Iface(iface.iface_id()), ContentId::Iface(iface.iface_id())));
    }
    for s in stash.schemata().map_err(|e| bad(&e))? {
        let id = s.schema.schema_id();
        f.put(format!("schema {id} {}", sum(&strict(&s.schema))));
        used.extend(s.schema.types());
        contents.push((ContentRef::Schema(id), ContentId::Schema(id)));
        for (name, i) in s.iimpls.iter() {
            f.put(format!("impl {id} {name} {} {}", i.impl_id(), sum(&strict(i))));
            contents.push((ContentRef::IfaceImpl(i.impl_id()), ContentId::IfaceImpl(i.impl_id())));
        }
        for lib in s.schema.libs() {
            if let Ok(l) = stash.lib(lib) {
                f.put(format!("lib {lib} {}", sum(&strict(l))));
            }
        }
    }
    for id in used {
        if let Some(ty) = types.get(id) {
            f.put(format!("type {id} {}", sum(&strict(ty))));
        }
    }
    let mut outs: BTreeSet<XOutputSeal> = bset![];
    let mut terminals: BTreeSet<XChain<SecretSeal>> = bset![];
    let mut contracts = vec![];
    for g in stash.geneses().map_err(|e| bad(&e))? {
        let id = g.contract_id();
        f.put(format!("contract {id} {}", g.schema_id));
        contents.push((ContentRef::Genesis(id), ContentId::Genesis(id)));
        op_facts(&mut f, g.id(), &g.assignments);
        for i in items(&g.assignments) {
            outs.extend(i.seal.map(genesis_place));
            terminals.insert(i.secret);
        }
        contracts.push((id, g.schema_id));
    }
    for (content, id) in contents {
        let mut list = stash.supplements(content).map_err(|e| bad(&e))?.collect::<Vec<_>>();
        list.sort();
        for s in list {
            f.put(format!("supplement {content} {}", s.suppl_id()));
            if let Some(sigs) = stash.sigs_for(&ContentId::Suppl(s.suppl_id())).map_err(|e| bad(&e))? {
                for (who, sig) in sigs.iter() {
                    f.put(format!("signature {} {who} {sig}", s.suppl_id()));
                }
            }
        }
        if let Some(sigs) = stash.sigs_for(&id).map_err(|e| bad(&e))? {
            for (who, sig) in sigs.iter() {
                f.put(format!("signature {id:?} {who} {sig}"));
                f.put(format!("trust {who} {}", stash.get_trust(who).map_err(|e| bad(&e))?));
            }
        }
        f.views.insert(format!("supplement {content}"), stash.supplement(content).map_err(|e| bad(&e))?.map(|s| s.suppl_id().to_string()).unwrap_or_default());
    }
    let mut witnesses = vec![];
    for id in stash.witness_ids().map_err(|e| bad(&e))? {
        let w = stash.witness(id).map_err(|e| bad(&e))?;
        f.put(format!("witness {id}"));
        if w.public.as_reduced_unsafe().tx().is_some() {
            f.put(format!("witness transaction {id}"));
        }
        for b in w.anchors.known_bundle_ids() {
            f.put(format!("anchor {id} {b}"));
        }
        for (has, what) in [(w.anchors.has_tapret(), "tapret"), (w.anchors.has_opret(), "opret")] {
            if has {
                f.put(format!("anchor {what} {id}"));
            }
        }
        if let Ok(valid) = state.is_valid_witness(id) {
            f.put(format!("valid {id} {valid}"));
        }
        witnesses.push(id);
    }
    let mut taprets = stash.taprets().map_err(|e| bad(&e))?.map(|(id, t)| format!("tapret {id} {t}")).collect::<Vec<_>>();
    taprets.sort();
    f.facts.extend(taprets);
    for id in stash.bundle_ids().map_err(|e| bad(&e))? {
        let b = stash.bundle(id).map_err(|e| bad(&e))?;
        f.put(format!("bundle {id} {:?} {}", b.close_method, sum(&strict(&b.input_map))));
        let info = index.bundle_info(id).map(|(w, c)| (w.collect::<BTreeSet<_>>(), c)).map_err(|e| bad(&e))?;
        for w in &info.0 {
            f.put(format!("bundle witness {id} {w}"));
        }
        f.put(format!("bundle contract {id} {}", info.1));
        for (opid, t) in b.known_transitions.iter() {
            f.put(format!("operation {id} {opid} {} {}", t.id(), t.contract_id));
            op_facts(&mut f, *opid, &t.assignments);
            f.put(format!("operation bundle {opid} {}", index.bundle_id_for_op(*opid).map_err(|e| bad(&e))?));
            for i in items(&t.assignments) {
                terminals.insert(i.secret);
                if let Some(seal) = i.seal {
                    outs.extend(info.0.iter().map(|w| place(seal, *w)));
                }
            }
        }
    }
    for id in stash.extension_ids().map_err(|e| bad(&e))? {
        f.put(format!("extension {id}"));
    }
    for s in stash.secret_seals().map_err(|e| bad(&e))? {
        f.put(format!("secret seal {s:?}"));
        f.put(format!("seal secret {:?}", stash.seal_secret(s.conceal()).map_err(|e| bad(&e))?));
    }
    for (id, schema_id) in contracts {
        let view = stock.contract_state(id).map_err(|e| bad(&e))?;
        for a in view.rights_all() {
            f.put(format!("alloc {} {} {:?} right", a.opout, a.seal, a.witness));
        }
        for a in view.fungible_all() {
            f.put(format!("alloc {} {} {:?} {:?}", a.opout, a.seal, a.witness, a.state));
        }
        for a in view.data_all() {
            f.put(format!("alloc {} {} {:?} {:?}", a.opout, a.seal, a.witness, a.state));
        }
        for a in view.attach_all() {
            f.put(format!("alloc {} {} {:?} {:?}", a.opout, a.seal, a.witness, a.state));
        }
        for w in &witnesses {
            f.views.insert(format!("order {id} {w}"), format!("{:?}", view.witness_ord(*w)));
        }
        for i in stock.schema(schema_id).map_err(|e| bad(&e))?.iimpls.values() {
            let c = stock.contract_iface(id, i.iface_id).map_err(|e| bad(&e))?;
            for g in i.global_state.iter() {
                let list = c.global(g.name.clone()).map_err(|e| bad(&e))?.collect::<Vec<_>>();
                f.views.insert(format!("global {id} {} {}", i.impl_id(), g.name), format!("{list:?}"));
            }
        }
        for o in &outs {
            // outputs without state of the contract are refused
            if let Ok(got) = index.opouts_by_outputs(id, [XOutpoint::from(*o)]) {
                for x in got {
                    f.put(format!("found {id} {o} {x}"));
                }
            }
        }
        if exports {
            let c = match stock.export_contract(id) {
                Ok(c) => sum(&to_bytes(&c)),
                Err(e) => format!("error {e}"),
            };
            f.views.insert(format!("export {id}"), c);
            let seals = outs.iter().copied().filter(|o| index.opouts_by_outputs(id, [XOutpoint::from(*o)]).map(|s| !s.is_empty()).unwrap_or(false)).collect::<Vec<_>>();
            let t = match stock.transfer(id, seals, None) {
                Ok(c) => sum(&to_bytes(&c)),
                Err(e) => format!("error {e}"),
            };
            f.views.insert(format!("transfer {id}"), t);
        }
    }
    for o in &outs {
        let got = index.contracts_assigning(bset![XOutpoint::from(*o)]).map_err(|e| bad(&e))?;
        for x in got {
            f.put(format!("assigning {o} {x}"));
        }
    }
    for s in &terminals {
        for x in index.opouts_by_terminals([*s]).map_err(|e| bad(&e))? {
            f.put(format!("terminal {s} {x}"));
        }
    }
    for c in stock.contracts().map_err(|e| bad(&e))? {
        f.views.insert(format!("info {}", c.id), format!("{c:?}"));
    }
    Ok(f)
}

// ---------------------------------------------------------------------------
// C17: imports

/// An object which can be imported.
#[derive(Clone, Debug)]
pub enum Object {
    Kit(Kit),
    Contract(Contract),
    Transfer(Transfer),
}

impl Object {
    pub fn import(&self, stock: &mut Stock, chain: &Chain, testnet: bool) -> Res {
        match self {
            Object::Kit(k) => {
                let k = k.clone().validate().map_err(|(s, _)| Fail::new(format!("kit is not valid: {s}")))?;
                total("importing a kit", || stock.import_kit(k))?.map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
            }
            Object::Contract(c) => {
                let c = total("validation", || c.clone().validate(chain, testnet))?.map_err(|(s, _)| Fail::new(format!("contract is not valid: {s}")))?;
                total("importing a contract", || stock.import_contract(c, chain))?.map_err(|e| Fail::new(format!("contract was not imported: {e}")))?;
            }
            Object::Transfer(c) => {
                let c = total("validation", || c.clone().validate(chain, testnet))?.map_err(|(s, _)| Fail::new(format!("transfer is not valid: {s}")))?;
                total("accepting a transfer", || stock.accept_transfer(c, chain))?.map_err(|e| Fail::new(format!("transfer was not accepted: {e}")))?;
            }
        }
        Ok(())
    }
}

pub fn sig(n: u64) -> SigBlob {
    let len = 1 + (n % 40) as usize;
    SigBlob::from(Confined::try_from(n.to_le_bytes().iter().copied().cycle().take(len).collect::<Vec<_>>()).unwrap())
}

pub fn identity(n: u64) -> Identity { Identity::from(["alice.example", "bob.example", "carol.example", "dave.example"][(n % 4) as usize]) }

pub fn supplement(content: ContentRef, n: u64) -> Supplement {
    let mut s = Supplement::new(content, identity(n));
    s.timestamp = 1_700_000_000 + (n % 3) as i64;
    s.annotate_itself("Note", &rgbinvoice::Amount::from(n % 5)).expect("small annotation");
    s
}

/// Parts of kits: from nothing but types to everything with annotations.
pub fn kit_part(env: &Env, contract: Option<ContractId>, what: u64) -> Kit {
    let mut kit = env.kit();
    match what % 5 {
        0 => {}
        1 => {
            kit.iimpls = none!();
            kit.ifaces = none!();
        }
        2 => {
            kit.iimpls = none!();
            kit.schemata = none!();
        }
        3 => {
            kit.iimpls = none!();
            kit.ifaces = none!();
            kit.schemata = none!();
        }
        _ => {}
    }
    if what / 5 % 2 == 1 {
        let mut refs = vec![
            (ContentRef::Schema(env.schema.schema_id()), ContentId::Schema(env.schema.schema_id())),
            (ContentRef::Iface(env.iface.iface_id()), ContentId::Iface(env.iface.iface_id())),
            (ContentRef::IfaceImpl(env.iimpl.impl_id()), ContentId::IfaceImpl(env.iimpl.impl_id())),
        ];
        refs.extend(contract.map(|c| (ContentRef::Genesis(c), ContentId::Genesis(c))));
        for (n, (r, id)) in refs.into_iter().enumerate() {
            let x = mix(what, n as u64);
            if x & 3 != 0 {
                let s = supplement(r, x >> 8);
                let sid = s.suppl_id();
                kit.supplements.push(s).expect("few supplements");
                if x & 4 != 0 {
                    let who = identity(x >> 16);
                    let blob = sig(mix(u64::from_le_bytes(sid.to_byte_array()[..8].try_into().unwrap()), (x >> 16) % 4));
                    kit.signatures.insert(ContentId::Suppl(sid), ContentSigs::from(Confined::with_key_value(who, blob))).expect("few signatures");
                }
            }
            if x & 24 != 0 {
                // the same identity always makes the same signature
                let mut sigs = BTreeMap::new();
                for k in 0..1 + (x >> 32) % 3 {
                    let who = identity((x >> 40) + k);
                    let blob = sig(mix(u64::from_le_bytes(strict(&id)[1..9].try_into().unwrap()), (x >> 40).wrapping_add(k) % 4));
                    sigs.insert(who, blob);
                }
                kit.signatures.insert(id, ContentSigs::from(Confined::try_from(sigs).unwrap())).expect("few signatures");
            }
        }
    }
    kit
}

/// A variant of the same transfer which hides something.
pub fn disguise(mut t: Transfer, world: &World, mask: u64) -> Transfer {
    let orig = t.clone();
    if mask & 1 == 1 {
        veil(&mut t, &bset![], mask >> 1);
    }
    if mask & 2 == 2 {
        let bundles = t.bundles.iter().cloned().map(|mut wb| {
            wb.pub_witness = wb.pub_witness.map(|w| PubWitness::new(w.txid()));
            wb
        });
        t.bundles = Confined::from_checked(bundles.collect());
    }
    match t.clone().validate(&world.chain, world.testnet) {
        Ok(_) => t,
        Err(_) => orig,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Imports {
    pub wallet: u8,
    pub picks: Vec<(u8, u64)>,
    pub order: u64,
    pub again: u16,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

/// Objects made in the course of a history, which are valid at its end.
pub fn objects(world: &World, picks: &[(u8, u64)]) -> Res<Vec<Object>> {
    let mut sent = vec![];
    for (is_transfer, data) in &world.sent {
        if *is_transfer {
            let t = from_bytes::<Transfer>(data.clone()).map_err(|e| Fail::new(format!("transfer is not readable: {e}")))?;
            if t.bundled_witnesses().all(|b| world.alive(b.pub_witness.to_witness_id())) {
                sent.push(Object::Transfer(t));
            }
        } else {
            sent.push(Object::Contract(from_bytes::<Contract>(data.clone()).map_err(|e| Fail::new(format!("contract is not readable: {e}")))?));
        }
    }
    let mut out = vec![];
    for (ix, how) in picks {
        if *ix < 50 || sent.is_empty() {
            let env = &envs()[*ix as usize % 2].0;
            let contract = (!world.contracts.is_empty()).then(|| world.contracts[*ix as usize / 2 % world.contracts.len()].0);
            out.push(Object::Kit(kit_part(env, contract, *how)));
            continue;
        }
        // transfers are preferred to contracts
        let transfers = sent.iter().filter(|o| matches!(o, Object::Transfer(_))).collect::<Vec<_>>();
        let o = match transfers.is_empty() || ix % 4 == 0 {
            true => &sent[*ix as usize / 4 % sent.len()],
            false => transfers[*ix as usize / 4 % transfers.len()],
        };
        match o.clone() {
            Object::Transfer(t) => out.push(Object::Transfer(if how & 1 == 1 { disguise(t, world, how >> 1) } else { t })),
            o => out.push(o),
        }
    }
    Ok(out)
}

fn shuffle<T>(list: &mut [T], seed: u64) {
    for n in (1..list.len()).rev() {
        list.swap(n, (mix(seed, n as u64) % (n as u64 + 1)) as usize);
    }
}

pub fn fresh(world: &World, wallet: usize) -> Res<Stock> {
    let mut stock = Stock::in_memory();
    for seal in &world.wallets[wallet].m.seals {
        stock.store_secret_seal(*seal).map_err(|e| Fail::new(format!("seal was not stored: {e}")))?;
    }
    Ok(stock)
}

const CORE: &[&str] = &["iface ", "schema ", "impl ", "lib ", "contract ", "secret ", "seal ", "state ", "witness ", "anchor ", "valid ", "bundle ", "operation ", "alloc ", "found ", "assigning ", "terminal ", "tapret "];

fn orders(x: &Imports, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let world = run_history(&h, Flags::default(), cov, |_, _| Ok(()))?;
    let w = x.wallet as usize % WALLETS;
    let list = objects(&world, &x.picks)?;
    let mut a = fresh(&world, w)?;
    let mut last = facts(&a, false)?;
    let mut transfers = 0;
    for (n, o) in list.iter().enumerate() {
        o.import(&mut a, &world.chain, world.testnet).map_err(|mut f| {
            f.msg = format!("object {n} of {}: {}", list.len(), f.msg);
            f
        })?;
        transfers += matches!(o, Object::Transfer(_)) as usize;
        let now = facts(&a, false)?;
        last.extended_by(&now, &format!("import of object {n}"))?;
        if x.again >> (n % 16) & 1 == 1 {
            o.import(&mut a, &world.chain, world.testnet)?;
            now.same(&facts(&a, false)?, &format!("repeated import of object {n}"))?;
            cov.class("repeated");
        }
        last = now;
    }
    let mut order = (0..list.len()).collect::<Vec<_>>();
    shuffle(&mut order, x.order);
    let mut b = fresh(&world, w)?;
    for n in &order {
        list[*n].import(&mut b, &world.chain, world.testnet)?;
    }
    let fa = facts(&a, true)?;
    let fb = facts(&b, true)?;
    fa.same(&fb, &format!("imports in the order {:?} and in the order {order:?}", (0..list.len()).collect::<Vec<_>>()))?;
    cov.class_if(list.iter().any(|o| matches!(o, Object::Kit(k) if !k.signatures.is_empty())), "signed-kit");
    cov.class_if(list.iter().any(|o| matches!(o, Object::Contract(_))), "contract");
    cov.nontrivial_if(transfers >= 2 && order.iter().enumerate().any(|(n, o)| n != *o));

    // Exports contain everything which was imported
    let mut c = fresh(&world, w)?;
    let stash = a.as_stash_provider();
    let ids = stash.geneses().map_err(|e| Fail::new(format!("{e}")))?.map(|g| g.contract_id()).collect::<Vec<_>>();
    for id in ids {
        let mut seals = bset![];
        let mut secrets = bset![];
        let g = stash.genesis(id).map_err(|e| Fail::new(format!("{e}")))?;
        for i in items(&g.assignments) {
            match i.seal {
                Some(s) => drop(seals.insert(genesis_place(s))),
                None => drop(secrets.insert(i.secret)),
            }
        }
        for b in stash.bundle_ids().map_err(|e| Fail::new(format!("{e}")))? {
            let (ws, cid) = a.as_index_provider().bundle_info(b).map_err(|e| Fail::new(format!("{e}")))?;
            if cid != id {
                continue;
            }
            let ws = ws.collect::<Vec<_>>();
            for t in stash.bundle(b).map_err(|e| Fail::new(format!("{e}")))?.known_transitions.values() {
                for i in items(&t.assignments) {
                    match i.seal {
                        Some(s) => seals.extend(ws.iter().map(|w| place(s, *w))),
                        None => drop(secrets.insert(i.secret)),
                    }
                }
            }
        }
        let seals = seals.into_iter().collect::<Vec<_>>();
        for secret in secrets.into_iter().map(Some).chain([None]) {
            let t = total("making a transfer", || a.transfer(id, &seals, secret))?.map_err(|e| Fail::new(format!("imported contract can't be exported: {e}")))?;
            Object::Transfer(t).import(&mut c, &world.chain, world.testnet).map_err(|mut f| {
                f.msg = format!("exported again: {}", f.msg);
                f
            })?;
        }
    }
    if !c_empty(&c)? {
        let fc = facts(&c, false)?;
        let known = fa.only(&["contract "]);
        let have = fc.only(&["contract "]);
        ensure_eq!(known, have, "contracts exported");
        let lost = fa.only(&["secret ", "seal ", "state ", "anchor ", "bundle ", "operation ", "alloc ", "found ", "assigning "]);
        let got = fc.only(CORE);
        let lost = lost.difference(&got).take(5).collect::<Vec<_>>();
        ensure!(lost.is_empty(), "exported contracts do not contain {lost:#?}");
    }
    Ok(())
}

fn c_empty(c: &Stock) -> Res<bool> { Ok(c.as_stash_provider().geneses().map_err(|e| Fail::new(format!("{e}")))?.next().is_none()) }

pub fn imports(x: Weights, max: usize) -> impl Strategy<Value = Imports> {
    (0u8..3, vec((any::<u8>(), any::<u64>()), 2..9), any::<u64>(), any::<u16>(), history(x, max)).prop_map(|(wallet, picks, order, again, h)| Imports {
        wallet,
        picks,
        order,
        again,
        liquid: h.liquid,
        testnet: h.testnet,
        steps: h.steps,
    })
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("imports of at least two transfers, which were then repeated in a different order");
    let x = Weights { deliver: 10, split: 5, send: 6, share: 2, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };
    ctx.check("orders", 1100, 25000, || imports(x, 14), orders);
}

// ---------------------------------------------------------------------------
// C19: saving and loading

/// A directory which is removed with its content.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static NO: AtomicU64 = AtomicU64::new(0);
        let n = NO.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("rgbcheck-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

fn open(dir: &Path) -> FsBinStore { FsBinStore::new(dir.to_path_buf()).expect("storage") }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Saved {
    pub autosave: bool,
    /// steps before the stocks are made persistent
    pub late: u8,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn saved(x: &Saved, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    // The same history in memory only
    let twin = run_history(&h, Flags::default(), &mut Cov::default(), |_, _| Ok(()))?;
    let dir = Scratch::new();
    let path = |w: usize| dir.0.join(format!("wallet{w}"));
    let late = x.late as usize % h.steps.len().max(1);
    let mut changed = 0u32;
    let mut reloads = 0u32;
    let world = run_history(&h, Flags::default(), cov, |world, n| {
        if n == late {
            for w in 0..WALLETS {
                let was = total("making a stock persistent", || world.wallets[w].stock.make_persistent(open(&path(w)), x.autosave))?
                    .map_err(|e| Fail::new(format!("stock was not made persistent: {e}")))?;
                ensure!(!was, "stock is reported as already persistent");
            }
        }
        let reload = match &h.steps[n] {
            Step::Reload { w } => Some(*w as usize % WALLETS),
            _ => None,
        };
        if n < late {
            return Ok(());
        }
        if let Some(w) = reload {
            // Reload step has dropped the persistence
            let _ = total("making a stock persistent", || world.wallets[w].stock.make_persistent(open(&path(w)), x.autosave))?
                .map_err(|e| Fail::new(format!("stock was not made persistent: {e}")))?;
        }
        let list = if reload.is_some() { bset![reload.unwrap()] } else { world.touched.clone() };
        for w in list {
            changed += 1;
            // not each time, to have several changes between saves
            if !x.autosave && mix(n as u64, w as u64) & 1 == 1 {
                continue;
            }
            if !x.autosave {
                total("saving", || world.wallets[w].stock.store())?.map_err(|e| Fail::new(format!("stock was not saved: {e}")))?;
            }
            let before = facts(&world.wallets[w].stock, false)?;
            let loaded = total("loading", || Stock::load(open(&path(w)), x.autosave))?.map_err(|e| Fail::new(format!("saved stock was not loaded: {e}")))?;
            before.same(&facts(&loaded, false)?, &format!("stock of wallet {w} and the one loaded after step {n}"))?;
            if reload.is_some() || mix(n as u64, w as u64) & 4 == 4 {
                world.wallets[w].stock = loaded;
                reloads += 1;
            }
        }
        Ok(())
    })?;
    for w in 0..WALLETS {
        let f = facts(&world.wallets[w].stock, true)?;
        let t = facts(&twin.wallets[w].stock, true)?;
        t.same(&f, &format!("in-memory stock of wallet {w} and the saved one"))?;
        if h.steps.len() > late {
            let mut world_stock = Stock::load(open(&path(w)), false).map_err(|e| Fail::new(format!("saved stock was not loaded: {e}")))?;
            if !x.autosave {
                continue;
            }
            t.same(&facts(&world_stock, true)?, &format!("in-memory stock of wallet {w} and the stored one"))?;
            // loaded stock does not have to be stored again
            world_stock.store().map_err(|e| Fail::new(format!("loaded stock was not saved: {e}")))?;
        }
    }
    cov.class_if(x.autosave, "autosave");
    cov.class_if(late > 0, "made-persistent-later");
    cov.nontrivial_if(changed >= 3 && reloads >= 1);
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("histories with at least three changes of saved stocks and one reload");
    let x = Weights { reload: 3, share: 2, ..EVEN };
    ctx.check("reloads", 700, 7000, || {
        (any::<bool>(), prop_oneof![2 => Just(0u8), 1 => 0u8..8], history(x, 12)).prop_map(|(autosave, late, h)| Saved {
            autosave,
            late,
            liquid: h.liquid,
            testnet: h.testnet,
            steps: h.steps,
        })
    }, saved);
}

// ---------------------------------------------------------------------------
// C20: failing and damaged storage

/// A storage in memory, writing to which fails on request.
#[derive(Clone, Debug, Default)]
pub struct Disk(Arc<Mutex<DiskData>>);

#[derive(Clone, Debug, Default)]
struct DiskData {
    files: [Option<Vec<u8>>; 3],
    writes: u32,
    fail: std::ops::Range<u32>,
    failed: u32,
}

impl Disk {
    fn write(&self, n: usize, data: Vec<u8>) -> Result<(), PersistenceError> {
        let mut d = self.0.lock().expect("single thread");
        let no = d.writes;
        d.writes += 1;
        if d.fail.contains(&no) {
            d.failed += 1;
            return Err(PersistenceError::with(std::io::Error::other("disk is full")));
        }
        d.files[n] = Some(data);
        Ok(())
    }

    fn read<T: strict_encoding::StrictDeserialize>(&self, n: usize) -> Result<T, PersistenceError> {
        let data = self.0.lock().expect("single thread").files[n].clone();
        let data = data.ok_or_else(|| PersistenceError::with(std::io::Error::other("no file")))?;
        from_bytes(data).map_err(|e| PersistenceError::with(std::io::Error::other(e)))
    }

    /// Starts counting of writes; those in the range fail.
    fn arm(&self, fail: std::ops::Range<u32>) {
        let mut d = self.0.lock().expect("single thread");
        d.writes = 0;
        d.failed = 0;
        d.fail = fail;
    }

    fn writes(&self) -> u32 { self.0.lock().expect("single thread").writes }
    fn failed(&self) -> u32 { self.0.lock().expect("single thread").failed }
}

macro_rules! disk {
    ($($ty:ty => $n:expr),+) => { $(
        impl PersistenceProvider<$ty> for Disk {
            fn load(&self) -> Result<$ty, PersistenceError> { self.read($n) }
            fn store(&self, object: &$ty) -> Result<(), PersistenceError> { self.write($n, to_bytes(object)) }
        }
    )+ }
}
disk!(MemStash => 0, MemState => 1, MemIndex => 2);

/// A change of a stock.
enum Change {
    Import(Object),
    Own(Fascia),
    Seal(XChain<GraphSeal>),
    Update(Chain),
}

impl Change {
    fn apply(&self, stock: &mut Stock, world: &World) -> Res<Result<(), String>> {
        let (chain, testnet) = (&world.chain, world.testnet);
        Ok(match self {
            Change::Import(Object::Kit(k)) => {
                let k = k.clone().validate().map_err(|(s, _)| Fail::new(format!("kit is not valid: {s}")))?;
                total("importing a kit", || stock.import_kit(k))?.map(drop).map_err(|e| e.to_string())
            }
            Change::Import(Object::Contract(c)) => {
                let c = c.clone().validate(chain, testnet).map_err(|(s, _)| Fail::new(format!("contract is not valid: {s}")))?;
                total("importing a contract", || stock.import_contract(c, chain))?.map(drop).map_err(|e| e.to_string())
            }
            Change::Import(Object::Transfer(c)) => {
                let c = c.clone().validate(chain, testnet).map_err(|(s, _)| Fail::new(format!("transfer is not valid: {s}")))?;
                total("accepting a transfer", || stock.accept_transfer(c, chain))?.map(drop).map_err(|e| e.to_string())
            }
            Change::Own(f) => total("consuming own transaction", || stock.consume_fascia(f.clone(), chain))?.map_err(|e| e.to_string()),
            Change::Seal(s) => total("storing a seal", || stock.store_secret_seal(*s))?.map(drop).map_err(|e| e.to_string()),
            Change::Update(chain) => total("updating witnesses", || stock.update_witnesses(chain, 0))?.map(drop).map_err(|e| e.to_string()),
        })
    }

    fn name(&self) -> &'static str {
        match self {
            Change::Import(Object::Kit(_)) => "kit",
            Change::Import(Object::Contract(_)) => "contract",
            Change::Import(Object::Transfer(_)) => "transfer",
            Change::Own(_) => "own",
            Change::Seal(_) => "seal",
            Change::Update(_) => "update",
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Faulty {
    pub wallet: u8,
    pub what: u8,
    pub autosave: bool,
    pub picks: Vec<(u8, u64)>,
    pub seed: u64,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

/// A stock made by a history and a change of it.
fn change(x: &Faulty, cov: &mut Cov) -> Res<(World, Stock, Change)> {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let mut world = run_history(&h, Flags { keep: true, ..Default::default() }, cov, |_, _| Ok(()))?;
    let w = x.wallet as usize % WALLETS;
    if x.what % 4 == 1 {
        if let Some((stock, fascia)) = world.kept.take() {
            return Ok((world, stock, Change::Own(fascia)));
        }
    }
    let mut list = objects(&world, &x.picks)?;
    let last = list.pop().expect("at least one object");
    let mut stock = fresh(&world, w)?;
    for o in &list {
        o.import(&mut stock, &world.chain, world.testnet)?;
    }
    let change = match x.what % 4 {
        2 => Change::Seal(XChain::with(world.layer1, GraphSeal::with_blinded_vout(bp::seals::txout::CloseMethod::TapretFirst, 7, x.seed))),
        3 => {
            let mut chain = Chain { txs: world.chain.txs.clone(), ..Default::default() };
            for (n, (_, ord)) in chain.txs.values_mut().enumerate() {
                *ord = match mix(x.seed, n as u64) % 4 {
                    0 => rgb::vm::WitnessOrd::Archived,
                    1 => rgb::vm::WitnessOrd::Tentative,
                    _ => mined(world.layer1, 100 + n as u32),
                };
            }
            Change::Update(chain)
        }
        _ => Change::Import(last),
    };
    Ok((world, stock, change))
}

fn attach(base: &Stock, autosave: bool) -> Res<(Stock, Disk)> {
    let disk = Disk::default();
    let mut stock = clone_stock(base)?;
    stock.make_persistent(disk.clone(), autosave).map_err(|e| Fail::new(format!("stock was not made persistent: {e}")))?;
    disk.arm(0..0);
    Ok((stock, disk))
}

fn on_disk(disk: &Disk, expect: &Facts, what: &str) -> Res {
    let stock = total("loading", || Stock::<MemStash, MemState, MemIndex>::load(disk.clone(), false))?.map_err(|e| Fail::new(format!("{what}: stock was not loaded: {e}")))?;
    expect.same(&facts(&stock, false)?, what)
}

fn faults(x: &Faulty, cov: &mut Cov) -> Res {
    let (world, base, change) = change(x, cov)?;
    let before = facts(&base, false)?;
    let mut control = clone_stock(&base)?;
    change.apply(&mut control, &world)?.map_err(|e| Fail::new(format!("valid change was refused: {e}")))?;
    let after = facts(&control, false)?;
    cov.class(change.name());
    cov.class_if(x.autosave, "autosave");

    // Without failures
    let (mut stock, disk) = attach(&base, x.autosave)?;
    change.apply(&mut stock, &world)?.map_err(|e| Fail::new(format!("change of a persistent stock was refused: {e}")))?;
    let during = disk.writes();
    after.same(&facts(&stock, false)?, "stock in memory and a persistent one")?;
    if x.autosave {
        on_disk(&disk, &after, "stock in memory and its automatically saved copy")?;
    }
    disk.arm(0..0);
    stock.store().map_err(|e| Fail::new(format!("stock was not saved: {e}")))?;
    let saving = disk.writes();
    on_disk(&disk, &after, "stock in memory and its saved copy")?;

    let mut failures = 0;
    // Each single write and each write with all the following ones fail in the course of the change
    for k in 0..during {
        for all in [false, true] {
            let (mut stock, disk) = attach(&base, x.autosave)?;
            disk.arm(k..if all { u32::MAX } else { k + 1 });
            let what = format!("{} with failed write {k} of {during}{}", change.name(), if all { " and all the following ones" } else { "" });
            let res = change.apply(&mut stock, &world)?;
            failures += disk.failed();
            let now = facts(&stock, false)?;
            match &res {
                Ok(()) => {
                    after.same(&now, &format!("successful {what}"))?;
                    if x.autosave {
                        on_disk(&disk, &after, &format!("stored stock after successful {what}"))?;
                    }
                }
                Err(_) => before.same(&now, &format!("refused {what}"))?,
            }
            disk.arm(0..0);
            if res.is_err() {
                change.apply(&mut stock, &world)?.map_err(|e| Fail::new(format!("{what} was refused once again without failures: {e}")))?;
                after.same(&facts(&stock, false)?, &format!("repeated {what}"))?;
                if x.autosave {
                    on_disk(&disk, &after, &format!("stored stock after repeated {what}"))?;
                }
            }
            stock.store().map_err(|e| Fail::new(format!("stock was not saved after {what}: {e}")))?;
            on_disk(&disk, &after, &format!("stored stock after {what}"))?;
        }
    }
    // Each write fails when saving
    for k in 0..saving {
        let (mut stock, disk) = attach(&base, x.autosave)?;
        change.apply(&mut stock, &world)?.map_err(|e| Fail::new(format!("change of a persistent stock was refused: {e}")))?;
        disk.arm(k..k + 1);
        let res = total("saving", || stock.store())?;
        failures += disk.failed();
        ensure!(res.is_err() || disk.failed() == 0, "saving with failed write {k} is reported as successful");
        after.same(&facts(&stock, false)?, "stock after failed saving")?;
        disk.arm(0..0);
        stock.store().map_err(|e| Fail::new(format!("stock was not saved: {e}")))?;
        on_disk(&disk, &after, &format!("stock saved after failed write {k}"))?;
    }
    // Each write fails when a stock is made persistent
    for k in 0..3 {
        let disk = Disk::default();
        let mut stock = clone_stock(&control)?;
        disk.arm(k..k + 1);
        let res = total("making a stock persistent", || stock.make_persistent(disk.clone(), x.autosave))?;
        failures += disk.failed();
        ensure!(res.is_err() || disk.failed() == 0, "stock with failed write {k} is reported as made persistent");
        after.same(&facts(&stock, false)?, "stock which was not made persistent")?;
    }
    cov.nontrivial_if(failures >= 3 && before != after);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damaged {
    pub wallet: u8,
    pub picks: Vec<(u8, u64)>,
    pub at: Vec<u32>,
    pub edits: Vec<crate::gen::ByteEdit>,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

fn damaged(x: &Damaged, cov: &mut Cov) -> Res {
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let world = run_history(&h, Flags::default(), cov, |_, _| Ok(()))?;
    let mut stock = fresh(&world, x.wallet as usize % WALLETS)?;
    for o in objects(&world, &x.picks)? {
        o.import(&mut stock, &world.chain, world.testnet)?;
    }
    let dir = Scratch::new();
    let store = open(&dir.0);
    stock.make_persistent(store.clone(), false).map_err(|e| Fail::new(format!("stock was not made persistent: {e}")))?;
    let read = |p: &Path| std::fs::read(p).expect("stored file");
    let write = |p: &Path, data: &[u8]| std::fs::write(p, data).expect("scratch file");
    let load = || frugal("loading", || Stock::<MemStash, MemState, MemIndex>::load(open(&dir.0), false));
    ensure!(load()?.is_ok(), "stored stock is not loaded");
    let mut altered = 0;
    let mut flaw = None;
    for file in [&store.stash, &store.state, &store.index] {
        let name = file.file_name().unwrap().to_string_lossy().to_string();
        let data = read(file);
        std::fs::remove_file(file).expect("scratch file");
        ensure!(load()?.is_err(), "storage without {name} is loaded");
        let mut cuts = bset![0, data.len() - 1, data.len() / 2];
        cuts.extend(x.at.iter().map(|a| *a as usize % data.len()));
        for cut in cuts {
            write(file, &data[..cut]);
            ensure!(load()?.is_err(), "storage with {name} cut to {cut} of {} bytes is loaded", data.len());
        }
        let mut longer = data.clone();
        longer.push(x.at.first().copied().unwrap_or_default() as u8);
        write(file, &longer);
        ensure!(load()?.is_err(), "storage with {name} having more data is loaded");
        // Other changes
        for n in 0..x.edits.len() {
            let other = crate::gen::apply_byte_edits(&data, &x.edits[n..n + 1]);
            if other == data {
                continue;
            }
            write(file, &other);
            let res = match load() {
                Err(f) if is_known_flaw(&f) => {
                    flaw = Some(f);
                    continue;
                }
                res => res?,
            };
            if let Ok(stock) = res {
                altered += 1;
                let parts = [to_bytes(stock.as_stash_provider()), to_bytes(stock.as_state_provider()), to_bytes(stock.as_index_provider())];
                let mut found = false;
                for (part, path) in parts.iter().zip([&store.stash, &store.state, &store.index]) {
                    ensure!(*part == read(path), "altered {} is not loaded as it is", path.file_name().unwrap().to_string_lossy());
                    found |= path == file;
                }
                ensure!(found, "unknown file {name}");
            }
        }
        write(file, &data);
    }
    ensure!(load()?.is_ok(), "restored stock is not loaded");
    cov.class_if(altered > 0, "readable-when-altered");
    cov.nontrivial_if(stock.as_stash_provider().bundle_ids().map_err(|e| Fail::new(format!("{e}")))?.next().is_some());
    flaw.map(Err).unwrap_or(Ok(()))
}

/// Stored data with the given content of the stash.
fn load_stash(f: impl FnOnce(&World, Vec<u8>) -> Res<Vec<u8>>) -> Res {
    let world = sample_world()?;
    let mut stock = clone_stock(&world.wallets[0].stock)?;
    let dir = Scratch::new();
    let store = open(&dir.0);
    stock.make_persistent(store.clone(), false).map_err(|e| Fail::new(format!("stock was not made persistent: {e}")))?;
    let data = std::fs::read(&store.stash).expect("stored file");
    std::fs::write(&store.stash, f(&world, data)?).expect("scratch file");
    let res = frugal("loading", || Stock::<MemStash, MemState, MemIndex>::load(open(&dir.0), false).map(drop))?;
    ensure!(res.is_err(), "altered stash is loaded");
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    ctx.probe("claimed-length", || load_stash(|world, data| Ok(claim_length(&data, world))));
    ctx.probe("concealed-amount", || {
        load_stash(|world, data| {
            let stash = world.wallets[0].stock.as_stash_provider();
            let genesis = stash.genesis(world.contracts[0].0).map_err(|e| Fail::new(format!("contract is not known: {e}")))?;
            let old = strict(genesis);
            let at = data.windows(old.len()).position(|w| w == old).ok_or_else(|| Fail::new("contract is not stored"))?;
            let mut genesis = genesis.clone();
            concealed_amounts(&mut genesis);
            Ok([&data[..at], &strict(&genesis), &data[at + old.len()..]].concat())
        })
    });
    ctx.rule("changes of reported content with at least three failed writes, or damaged storages with at least one transaction");
    let x = Weights { deliver: 10, split: 3, send: 4, share: 2, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };
    ctx.check("faults", 450, 5000, || {
        (imports(x, 14), any::<u8>(), prop::bool::weighted(0.75)).prop_map(|(i, what, autosave)| Faulty {
            wallet: i.wallet,
            what,
            autosave,
            picks: i.picks,
            seed: i.order,
            liquid: i.liquid,
            testnet: i.testnet,
            steps: i.steps,
        })
    }, faults);
    ctx.check("damage", 400, 8000, || {
        (imports(x, 12), vec(any::<u32>(), 1..8), vec(crate::gen::byte_edit(), 1..8)).prop_map(|(i, at, edits)| Damaged {
            wallet: i.wallet,
            picks: i.picks,
            at,
            edits,
            liquid: i.liquid,
            testnet: i.testnet,
            steps: i.steps,
        })
    }, damaged);
}
