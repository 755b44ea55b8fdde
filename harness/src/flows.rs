//! C11-C17, C21, C22: payments, deliveries and state over generated histories.

use std::collections::{BTreeMap, BTreeSet};

use amplify::Wrapper;
use proptest::prelude::*;
use rgb::vm::XWitnessId;
use rgb::*;
use rgbstd::interface::FilterIncludeAll;
use rgbstd::persistence::{ContractStateRead, IndexReadProvider, PersistedState};

use crate::env::*;
use crate::frame::*;
use crate::world::*;
use crate::{ensure, ensure_eq, fail};

type Seen = BTreeMap<(Opout, XOutputSeal), (PersistedState, Option<XWitnessId>)>;

fn put(seen: &mut Seen, what: &str, opout: Opout, seal: XOutputSeal, state: PersistedState, witness: Option<XWitnessId>) -> Res {
    ensure!(seen.insert((opout, seal), (state, witness)).is_none(), "{what} reports {opout} at {seal} twice");
    Ok(())
}

/// All the owned state reported by the wallet.
pub fn seen(w: &Wallet, id: ContractId) -> Res<Seen> {
    let view = total("reading state", || w.stock.contract_state(id))?.map_err(|e| Fail::new(format!("state is not readable: {e}")))?;
    let mut seen = Seen::new();
    let what = "contract state";
    for a in view.rights_all() {
        put(&mut seen, what, a.opout, a.seal, PersistedState::Void, a.witness)?;
    }
    for a in view.fungible_all() {
        put(&mut seen, what, a.opout, a.seal, persisted_of(&a.state), a.witness)?;
    }
    for a in view.data_all() {
        put(&mut seen, what, a.opout, a.seal, persisted_of(&a.state), a.witness)?;
    }
    for a in view.attach_all() {
        put(&mut seen, what, a.opout, a.seal, persisted_of(&a.state), a.witness)?;
    }
    Ok(seen)
}

type View = BTreeMap<(Opout, XOutputSeal), (PersistedState, Witnesses)>;

fn compare(seen: &Seen, view: &View, full: &View, what: &str) -> Res {
    for (k, (s, ws)) in view {
        let Some((got, witness)) = seen.get(k) else { fail!("{what}: assignment {} of {:?} at {} is missing", k.0, meaning(s), k.1) };
        ensure_eq!(got, s, "{} {} at {}", what, k.0, k.1);
        ensure!(ws.contains(witness), "{what}: {} at {} is reported under witness {witness:?} instead of {ws:?}", k.0, k.1);
    }
    for k in seen.keys() {
        ensure!(full.contains_key(k), "{what}: assignment {} at {} must not be there", k.0, k.1);
    }
    Ok(())
}

/// C13: the state reported by the wallet is what results from the operations it knows.
pub fn check_state(world: &World, w: usize) -> Res {
    let wallet = &world.wallets[w];
    let stock = &wallet.stock;
    let list = total("listing contracts", || stock.contracts().map(|i| i.map(|c| c.id).collect::<Vec<_>>()))?
        .map_err(|e| Fail::new(format!("contracts are not readable: {e}")))?;
    let mut sorted = list.clone();
    sorted.sort();
    ensure_eq!(sorted, wallet.m.contracts.keys().copied().collect::<Vec<_>>(), "contracts known to the wallet");
    for id in wallet.m.contracts.keys().copied() {
        let view = wallet.m.view(id);
        let now = seen(wallet, id)?;
        let full = wallet.m.full(id);
        compare(&now, &view, &full, "contract state")?;
        for (k, (_, ws)) in &full {
            // An earlier transaction came back after its replacement was dropped
            if !now.contains_key(k) {
                return Err(Fail::sig(
                    "state-hidden-when-replaced-transaction-returns",
                    format!("assignment {} at {} is not reported although its witness {ws:?} is valid", k.0, k.1),
                ));
            }
        }

        // the same through the interface
        let (env, _) = &envs()[world.contracts.iter().find(|c| c.0 == id).unwrap().1];
        let c = total("opening the interface", || stock.contract_iface(id, env.iface.iface_id()))?
            .map_err(|e| Fail::new(format!("contract is not available through the interface: {e}")))?;
        let mut all = Seen::new();
        for ty in [ASSET, BONUS, TOKEN, RIGHT] {
            let mut part = Seen::new();
            let name = owned_name(ty);
            let bad = |e: rgbstd::interface::ContractError| Fail::new(format!("state {name} is not available: {e}"));
            let what = format!("interface state {name}");
            match ty {
                ASSET | BONUS => {
                    for a in total(&what, || c.fungible(name.clone(), FilterIncludeAll).map(|i| i.collect::<Vec<_>>()))?.map_err(bad)? {
                        let key = (a.opout, a.seal);
                        let Some((s @ PersistedState::Amount(v, ..), _)) = full.get(&key) else { fail!("{what}: {} must not be there", a.opout) };
                        ensure_eq!(a.state, *v, "{} {}", what, a.opout);
                        put(&mut part, &what, a.opout, a.seal, s.clone(), a.witness)?;
                    }
                }
                TOKEN => {
                    for a in total(&what, || c.data(name.clone(), FilterIncludeAll).map(|i| i.collect::<Vec<_>>()))?.map_err(bad)? {
                        let key = (a.opout, a.seal);
                        let Some((s @ PersistedState::Data(v, _), _)) = full.get(&key) else { fail!("{what}: {} must not be there", a.opout) };
                        ensure_eq!(a.state, *v, "{} {}", what, a.opout);
                        put(&mut part, &what, a.opout, a.seal, s.clone(), a.witness)?;
                    }
                }
                _ => {
                    for a in total(&what, || c.rights(name.clone(), FilterIncludeAll).map(|i| i.collect::<Vec<_>>()))?.map_err(bad)? {
                        put(&mut part, &what, a.opout, a.seal, PersistedState::Void, a.witness)?;
                    }
                }
            }
            let of = |v: &View| v.iter().filter(|((o, _), _)| o.ty.to_inner() == ty).map(|(k, v)| (*k, v.clone())).collect();
            compare(&part, &of(&view), &of(&full), &what)?;
            all.extend(part);
        }
        let mut keys = total("allocations", || c.allocations(&FilterIncludeAll).map(|a| (a.opout, a.seal)).collect::<Vec<_>>())?;
        keys.sort();
        ensure_eq!(keys, all.keys().copied().collect::<Vec<_>>(), "all allocations of the interface");

        // the same by outputs
        let outs = wallet.m.contracts[&id].places.keys().map(|s| outpoint(*s)).collect::<BTreeSet<_>>();
        for half in 0..3usize {
            let some = outs.iter().enumerate().filter(|(n, _)| half == 2 || n % 2 == half).map(|(_, o)| *o).collect::<BTreeSet<_>>();
            let arg = some.iter().map(|o| xo(world.layer1, *o)).collect::<BTreeSet<_>>();
            let got = total("assignments for outputs", || stock.contract_assignments_for(id, arg))?.map_err(|e| Fail::new(format!("assignments are not readable: {e}")))?;
            let got = got.into_iter().flat_map(|(s, m)| m.into_iter().map(move |(o, st)| ((o, s), st))).collect::<BTreeMap<_, _>>();
            let want = now.iter().filter(|((_, s), _)| some.contains(&outpoint(*s))).map(|(k, v)| (*k, v.0.clone())).collect::<BTreeMap<_, _>>();
            ensure_eq!(got, want, "assignments of selected outputs");
        }
    }
    Ok(())
}

/// C15: global state.
pub fn check_globals(world: &World, w: usize, cov: &mut Cov) -> Res {
    let wallet = &world.wallets[w];
    let stock = &wallet.stock;
    for id in wallet.m.contracts.keys().copied() {
        let (env, _) = &envs()[world.contracts.iter().find(|c| c.0 == id).unwrap().1];
        let c = total("opening the interface", || stock.contract_iface(id, env.iface.iface_id()))?
            .map_err(|e| Fail::new(format!("contract is not available through the interface: {e}")))?;
        for (ty, name) in [(SPEC, "spec"), (TERMS, "terms"), (LOG, "log"), (NOTE, "note")] {
            let limit = env.schema.global_types[&gty(ty)].max_items.into_u32() as usize;
            let mut want = wallet.m.globals(id, ty);
            cov.class_if(want.len() > limit, "more-values-than-kept");
            cov.class_if(want.len() > 1, "several-values");
            if want.len() > limit {
                want.drain(..want.len() - limit);
            }
            let sem = env.schema.global_types[&gty(ty)].sem_id;
            let want = want
                .into_iter()
                .map(|b| env.types.strict_deserialize_type(sem, &b).expect("valid data").unbox())
                .collect::<Vec<_>>();
            let got = total("global state", || c.global(name).map(|i| i.collect::<Vec<_>>()))?.map_err(|e| Fail::new(format!("global {name} is not available: {e}")))?;
            ensure_eq!(got, want, "global state {name} of contract");
        }
    }
    Ok(())
}

/// C16: everything known can be found.
pub fn check_index(world: &World, w: usize) -> Res {
    let wallet = &world.wallets[w];
    let index = wallet.stock.as_index_provider();
    let mut by_secret: BTreeMap<XChain<SecretSeal>, BTreeSet<Opout>> = bmap! {};
    let mut contracts_on: BTreeMap<bp::Outpoint, BTreeSet<ContractId>> = bmap! {};
    for (id, c) in &wallet.m.contracts {
        for s in c.places.keys() {
            contracts_on.entry(outpoint(*s)).or_default().insert(*id);
        }
        for (s, o) in &c.secrets {
            by_secret.entry(*s).or_default().insert(*o);
        }
    }
    let x = |o: bp::Outpoint| xo(world.layer1, o);
    let all = contracts_on.keys().copied().chain([bp::Outpoint::new(txid(0xBEEF), 0u32)]).collect::<Vec<_>>();
    for half in 0..3usize {
        let some = all.iter().enumerate().filter(|(n, _)| half == 2 || n % 2 == half).map(|(_, o)| *o).collect::<BTreeSet<_>>();
        let mut got = total("contracts by outputs", || index.contracts_assigning(some.iter().map(|o| x(*o)).collect()).map(|i| i.collect::<Vec<_>>()))?.map_err(|e| Fail::new(format!("{e}")))?;
        got.sort();
        let want = some.iter().flat_map(|o| contracts_on.get(o).cloned().unwrap_or_default()).collect::<BTreeSet<_>>();
        ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "contracts having state on outputs");
    }
    for (id, c) in &wallet.m.contracts {
        let outs = c.places.keys().map(|s| outpoint(*s)).collect::<BTreeSet<_>>();
        let sets = outs.iter().map(|o| bset![*o]).chain([outs.clone()]);
        for some in sets {
            let got = total("assignments by outputs", || index.opouts_by_outputs(*id, some.iter().map(|o| x(*o))))?.map_err(|e| Fail::new(format!("{e}")))?;
            let want = c.places.iter().filter(|(s, _)| some.contains(&outpoint(**s))).flat_map(|(_, o)| o.iter().copied()).collect::<BTreeSet<_>>();
            ensure_eq!(got, want, "assignments found on outputs {:?}", some);
        }
        for (op, bundles) in &c.ops {
            let got = total("bundle of operation", || index.bundle_id_for_op(*op))?.map_err(|e| Fail::new(format!("operation {op} is not found: {e}")))?;
            ensure!(bundles.contains(&got), "operation {op} is reported in a bundle {got} which does not have it");
        }
        for (b, ws) in &c.bundles {
            let (got, cid) = total("bundle info", || index.bundle_info(*b).map(|(i, c)| (i.collect::<Vec<_>>(), c)))?.map_err(|e| Fail::new(format!("bundle {b} is not found: {e}")))?;
            ensure_eq!(cid, *id, "contract of bundle {}", b);
            let mut got = got;
            got.sort();
            ensure_eq!(got, ws.iter().copied().collect::<Vec<_>>(), "witnesses of bundle {}", b);
        }
    }
    for (s, want) in &by_secret {
        let got = total("assignments by blinded seal", || index.opouts_by_terminals([*s]))?.map_err(|e| Fail::new(format!("{e}")))?;
        for o in want {
            ensure!(got.contains(o), "assignment {o} is not found by its blinded seal {s}");
        }
        for o in got.difference(want) {
            // the seal may be known as a revealed one
            let seal = world.secrets.get(s).map(|(_, s)| *s);
            let ok = wallet.m.contracts.values().any(|c| {
                c.bundles.values().flatten().any(|w| seal.map(|s| c.places.get(&place(s, *w)).map(|p| p.contains(o)).unwrap_or(false)).unwrap_or(false))
            });
            ensure!(ok, "assignment {o} is found by a blinded seal {s} which it does not have");
        }
    }
    let secret_all = total("assignments by blinded seals", || index.opouts_by_terminals(by_secret.keys().copied()))?.map_err(|e| Fail::new(format!("{e}")))?;
    for o in by_secret.values().flatten() {
        ensure!(secret_all.contains(o), "assignment {o} is not found by all the blinded seals");
    }
    Ok(())
}

fn interesting(world: &World, cov: &mut Cov) {
    let n = world.stats.get("paid-blinded").unwrap_or(&0) + world.stats.get("paid-vout").unwrap_or(&0) + world.stats.get("split").unwrap_or(&0);
    let d = world.stats.iter().filter(|(k, _)| k.starts_with("delivered")).map(|(_, n)| *n).sum::<u32>();
    cov.nontrivial_if(n >= 2 && d >= 1);
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("histories with at least two payments or splits and one delivery");
    let x = Weights { pay: 12, split: 3, drop: 0, replace: 0, sync: 0, send: 0, share: 0, again: 0, refuse: 0.2, ..EVEN };
    let run = |h: &History, cov: &mut Cov| {
        let world = run_history(h, Flags { compose: true, ..Default::default() }, cov, |_, _| Ok(()))?;
        interesting(&world, cov);
        Ok(())
    };
    ctx.check("payments", 4500, 50000, || history(x, 14), run);
    ctx.check("rich", 2000, 20000, || rich(x, 8), run);
}

/// Composing the same payment again (with outputs given in a different order)
/// gives the same operations.
pub fn c10_payments(ctx: &Ctx) {
    let x = Weights { issue: 4, pay: 12, split: 2, deliver: 3, drop: 0, replace: 0, sync: 0, send: 0, share: 0, again: 0, refuse: 0.0, ..EVEN };
    ctx.check("payments", 2500, 25000, || history(x, 12), |h, cov| {
        let world = run_history(h, Flags { repeat: true, ..Default::default() }, cov, |_, _| Ok(()))?;
        let n = world.stats.get("paid-blinded").unwrap_or(&0) + world.stats.get("paid-vout").unwrap_or(&0);
        cov.nontrivial_if(n >= 2);
        Ok(())
    });
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("histories with at least two payments or splits and one delivery");
    let x = Weights { deliver: 10, split: 4, send: 3, ..EVEN };
    ctx.check("deliveries", 4000, 40000, || history(x, 16), |h, cov| {
        let world = run_history(h, Flags { arrive: true, ..Default::default() }, cov, |_, _| Ok(()))?;
        interesting(&world, cov);
        Ok(())
    });
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("histories with at least two payments or splits and one delivery");
    let x = Weights { drop: 0, replace: 0, sync: 1, broken: 0.0, share: 2, send: 4, reload: 1, ..EVEN };
    let run = |h: &History, cov: &mut Cov| {
        let world = run_history(h, Flags::default(), cov, |world, _| {
            for w in world.touched.clone() {
                check_state(world, w)?;
            }
            Ok(())
        })?;
        interesting(&world, cov);
        Ok(())
    };
    ctx.check("state", 3000, 30000, || history(x, 16), run);
    // Transactions which are not valid anymore
    let y = Weights { drop: 3, sync: 5, mine: 3, ..x };
    ctx.check("archived", 1500, 15000, || history(y, 16), run);
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("histories where a transaction was dropped, replaced, unmined or mined again, and a wallet synchronised");
    let x = Weights { mine: 6, drop: 4, replace: 3, sync: 8, broken: 0.3, ..EVEN };
    ctx.check("reorgs", 4500, 40000, || history(x, 18), reorgs);
    // A replaced transaction comes back
    let y = Weights { drop: 0, replace: 0, ..x };
    ctx.check("returns", 500, 5000, || (history(y, 8), returns()).prop_map(|(mut h, tail)| {
        h.steps.extend(tail);
        h
    }), reorgs);
}

/// A payment or a split which is replaced, and then the replacement is dropped
/// and the first transaction is mined.
fn returns() -> impl Strategy<Value = Vec<Step>> {
    let only = Weights { issue: 0, record: 0, deliver: 0, share: 0, send: 0, again: 0, mine: 0, drop: 0, replace: 0, sync: 0, ..EVEN };
    (step(only), any::<u64>(), 1u8..8, 0u8..3).prop_map(|(s, seed, height, w)| {
        let sync = |w| Step::Sync { w, after: 0, broken: 0 };
        vec![
            s,
            Step::Deliver { ix: 0, bytes: false, third: false, veil: None },
            Step::Replace { ix: 0, seed },
            Step::Deliver { ix: 0, bytes: false, third: false, veil: None },
            sync(w),
            Step::Drop { ix: 0 },
            sync((w + 1) % 3),
            Step::Mine { ix: 1, height },
            sync(0),
            sync(1),
            sync(2),
        ]
    })
}

fn reorgs(h: &History, cov: &mut Cov) -> Res {
    let world = run_history(h, Flags::default(), cov, |world, _| {
        for w in world.touched.clone() {
            check_state(world, w)?;
            let m = &world.wallets[w].m;
            for c in m.contracts.keys() {
                let view = world.wallets[w].stock.contract_state(*c).map_err(|e| Fail::new(format!("{e}")))?;
                let needed = seen(&world.wallets[w], *c)?.into_values().filter_map(|(_, w)| w).collect::<BTreeSet<_>>();
                for (id, ord) in &m.ords {
                    let got = view.witness_ord(*id);
                    if got.is_some() || needed.contains(id) {
                        ensure_eq!(got, Some(*ord), "status of witness {}", id);
                    }
                }
            }
        }
        Ok(())
    })?;
    let has = |k: &str| world.stats.contains_key(k);
    cov.nontrivial_if(has("synced") && ["dropped", "replaced", "unmined", "mined-again", "mined-elsewhere"].iter().any(|k| has(k)));
    Ok(())
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("histories with at least two operations declaring global state");
    let x = Weights { record: 8, split: 5, pay: 3, mine: 6, sync: 5, drop: 1, ..EVEN };
    ctx.check("globals", 4000, 40000, || history(x, 18), |h, cov| {
        let mut inner = Cov::default();
        let world = run_history(h, Flags::default(), cov, |world, _| {
            for w in world.touched.clone() {
                check_globals(world, w, &mut inner)?;
            }
            Ok(())
        })?;
        for c in inner.classes {
            cov.class(c);
        }
        cov.nontrivial_if(world.stats.get("recorded").unwrap_or(&0) + world.stats.get("split").unwrap_or(&0) >= 2);
        Ok(())
    });
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("histories with at least two payments or splits and one delivery");
    let x = Weights { split: 4, send: 3, share: 2, ..EVEN };
    ctx.check("index", 4000, 40000, || history(x, 16), |h, cov| {
        let world = run_history(h, Flags::default(), cov, |world, _| {
            for w in world.touched.clone() {
                check_index(world, w)?;
            }
            Ok(())
        })?;
        interesting(&world, cov);
        Ok(())
    });
    ctx.rule("index: at least two lists of assignments are put into the index");
    crate::index::c16_provider(ctx);
}
