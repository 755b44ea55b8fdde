//! C21, C22: wallet history and state filters.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

use amplify::Wrapper;
use proptest::prelude::*;
use rgb::vm::XWitnessId;
use rgb::*;
use rgbinvoice::Amount;
use rgbstd::interface::{AllocatedState, AssignmentsFilter, ContractIface, ContractOp, FilterExclude, FilterIncludeAll, OpDirection};
use rgbstd::persistence::{ContractStateRead, PersistedState};
use serde::{Deserialize, Serialize};

use crate::env::*;
use crate::flows::seen;
use crate::frame::*;
use crate::world::*;
use crate::{ensure, ensure_eq, fail};

/// A history and what is selected from the resulting state.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ViewCase {
    #[serde(flatten)]
    pub h: History,
    pub mask: u64,
    pub wmask: u64,
}

fn view_case(x: Weights, max: usize) -> impl Strategy<Value = ViewCase> {
    let mask = || prop_oneof![4 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 2 => (0u32..64).prop_map(|n| 1u64 << n)];
    (history(x, max), mask(), mask()).prop_map(|(h, mask, wmask)| ViewCase { h, mask, wmask })
}

/// A witness filter as a wallet would make it.
#[derive(Clone, Debug)]
pub struct ByWitness(pub BTreeSet<XWitnessId>);
impl AssignmentsFilter for ByWitness {
    fn should_include(&self, _: impl Into<XOutpoint>, w: Option<XWitnessId>) -> bool { w.map(|w| self.0.contains(&w)).unwrap_or(false) }
}

fn state_of(s: &PersistedState) -> AllocatedState {
    match s {
        PersistedState::Void => AllocatedState::Void,
        PersistedState::Amount(a, ..) => AllocatedState::Amount(*a),
        PersistedState::Data(d, _) => AllocatedState::Data(d.clone()),
        PersistedState::Attachment(a, _) => AllocatedState::Attachment(a.clone()),
    }
}

type Alloc = (Opout, XOutputSeal, AllocatedState, Option<XWitnessId>);

fn all_of(w: &Wallet, id: ContractId) -> Res<BTreeSet<Alloc>> {
    Ok(seen(w, id)?.into_iter().map(|((o, s), (st, w))| (o, s, state_of(&st), w)).collect())
}

fn iface_of<'a>(world: &'a World, w: usize, id: ContractId) -> Res<ContractIface<impl ContractStateRead + 'a>> {
    let (env, _) = &envs()[world.contracts.iter().find(|c| c.0 == id).unwrap().1];
    total("opening the interface", || world.wallets[w].stock.contract_iface(id, env.iface.iface_id()))?
        .map_err(|e| Fail::new(format!("contract is not available through the interface: {e}")))
}

// ---------------------------------------------------------------------------
// C22

fn got<S: ContractStateRead>(c: &ContractIface<S>, what: &str, filter: impl AssignmentsFilter + Copy) -> Res<BTreeSet<Alloc>> {
    let mut out = bset![];
    let mut put = |a: Alloc| -> Res {
        ensure!(out.insert(a.clone()), "{what}: {} at {} is reported twice", a.0, a.1);
        Ok(())
    };
    let bad = |e: rgbstd::interface::ContractError| Fail::new(format!("{what}: {e}"));
    for name in ["asset", "bonus"] {
        for a in total(what, || c.fungible(fname(name), filter).map(|i| i.collect::<Vec<_>>()))?.map_err(bad)? {
            put((a.opout, a.seal, AllocatedState::Amount(a.state), a.witness))?;
        }
    }
    for a in total(what, || c.data(fname("token"), filter).map(|i| i.collect::<Vec<_>>()))?.map_err(bad)? {
        put((a.opout, a.seal, AllocatedState::Data(a.state), a.witness))?;
    }
    for a in total(what, || c.rights(fname("right"), filter).map(|i| i.collect::<Vec<_>>()))?.map_err(bad)? {
        put((a.opout, a.seal, AllocatedState::Void, a.witness))?;
    }
    for a in total(what, || c.attachments(fname("doc"), filter).map(|i| i.collect::<Vec<_>>()))?.map_err(bad)? {
        put((a.opout, a.seal, AllocatedState::Attachment(a.state), a.witness))?;
    }
    let list = total(what, || c.allocations(filter).map(|a| (a.opout, a.seal, a.state, a.witness)).collect::<Vec<_>>())?;
    let set = list.iter().cloned().collect::<BTreeSet<_>>();
    ensure_eq!(list.len(), set.len(), "{what}: number of all allocations");
    ensure_eq!(set, out, "{what}: all allocations and the state by kinds");
    Ok(out)
}

fn check_filters(world: &World, w: usize, mask: u64, wmask: u64, cov: &mut Cov) -> Res {
    let wallet = &world.wallets[w];
    for id in wallet.m.contracts.keys().copied() {
        let all = all_of(wallet, id)?;
        let c = iface_of(world, w, id)?;
        let mut outs = all.iter().map(|a| XOutpoint::from(a.1)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>();
        // outputs with nothing: unknown ones and neighbours of the known ones
        outs.push(xo(world.layer1, bp::Outpoint::new(txid(0xBEEF), 0u32)));
        if let Some(a) = all.first() {
            let o = outpoint(a.1);
            let n = xo(world.layer1, bp::Outpoint::new(o.txid, o.vout.to_u32() + 7));
            if !outs.contains(&n) {
                outs.push(n);
            }
            let other = if world.layer1 == Layer1::Bitcoin { Layer1::Liquid } else { Layer1::Bitcoin };
            outs.push(xo(other, o));
        }
        let some = outs.iter().enumerate().filter(|(n, _)| mask >> (n % 64) & 1 == 1).map(|(_, o)| *o).collect::<BTreeSet<_>>();
        let wits = all.iter().filter_map(|a| a.3).collect::<BTreeSet<_>>();
        let wits = ByWitness(wits.into_iter().enumerate().filter(|(n, _)| wmask >> (n % 64) & 1 == 1).map(|(_, o)| o).collect());

        let want = all.iter().filter(|a| some.contains(&XOutpoint::from(a.1))).cloned().collect::<BTreeSet<_>>();
        let rest = all.difference(&want).cloned().collect::<BTreeSet<_>>();
        let of_wits = all.iter().filter(|a| a.3.map(|w| wits.0.contains(&w)).unwrap_or(false)).cloned().collect::<BTreeSet<_>>();
        let not_wits = all.difference(&of_wits).cloned().collect::<BTreeSet<_>>();
        cov.nontrivial_if(!want.is_empty() && !rest.is_empty());
        cov.class_if(!of_wits.is_empty() && !not_wits.is_empty(), "by-witness");

        ensure_eq!(got(&c, "all", &FilterIncludeAll)?, all, "state without a filter");
        ensure_eq!(got(&c, "nothing", &FilterExclude(FilterIncludeAll))?, bset![], "state with everything excluded");
        let vec = some.iter().copied().collect::<Vec<_>>();
        let slice: &[XOutpoint] = &vec;
        let hs = some.iter().copied().collect::<HashSet<_>>();
        let hm = some.iter().map(|o| (*o, ())).collect::<HashMap<_, _>>();
        let bm = some.iter().map(|o| (*o, 5u8)).collect::<BTreeMap<_, _>>();
        ensure_eq!(got(&c, "ordered set", &some)?, want, "state of outputs in an ordered set");
        ensure_eq!(got(&c, "vector", &vec)?, want, "state of outputs in a vector");
        ensure_eq!(got(&c, "slice", slice)?, want, "state of outputs in a slice");
        ensure_eq!(got(&c, "hash set", &hs)?, want, "state of outputs in a hash set");
        ensure_eq!(got(&c, "hash map", &hm)?, want, "state of outputs in a hash map");
        ensure_eq!(got(&c, "ordered map", &bm)?, want, "state of outputs in an ordered map");
        ensure_eq!(got(&c, "optional", Some(&some))?, want, "state with an optional filter");
        ensure_eq!(got(&c, "no filter", None::<&BTreeSet<XOutpoint>>)?, all, "state with an absent filter");
        ensure_eq!(got(&c, "reference", &&&some)?, want, "state with a nested reference to a filter");
        ensure_eq!(got(&c, "excluded", &FilterExclude(&some))?, rest, "state of all but the given outputs");
        ensure_eq!(got(&c, "excluded twice", &FilterExclude(FilterExclude(&some)))?, want, "state with a double exclusion");
        ensure_eq!(got(&c, "optional exclusion", Some(&FilterExclude(Some(slice))))?, rest, "state of all but the given outputs");
        ensure_eq!(got(&c, "witnesses", &wits)?, of_wits, "state of given witnesses");
        ensure_eq!(got(&c, "not witnesses", &FilterExclude(&wits))?, not_wits, "state of other witnesses");
        let mut copy = some.clone();
        let by_mut = total("mutable reference", || c.fungible(fname("asset"), &mut copy).map(|i| i.map(|a| a.opout).collect::<BTreeSet<_>>()))?
            .map_err(|e| Fail::new(format!("{e}")))?;
        ensure_eq!(by_mut, want.iter().filter(|a| a.0.ty.to_inner() == ASSET).map(|a| a.0).collect::<BTreeSet<_>>(), "state with a filter given by a mutable reference");
        for o in &outs {
            let one = all.iter().filter(|a| XOutpoint::from(a.1) == *o).cloned().collect::<BTreeSet<_>>();
            ensure_eq!(got(&c, "output", *o)?, one, "state of an output");
            ensure_eq!(got(&c, "array", [*o])?, one, "state of an array of outputs");
            let list = total("allocations of an output", || c.outpoint_allocations(*o).map(|a| (a.opout, a.seal, a.state, a.witness)).collect::<Vec<_>>())?;
            ensure_eq!(list.len(), one.len(), "number of allocations of an output");
            ensure_eq!(list.into_iter().collect::<BTreeSet<_>>(), one, "allocations of an output");
        }
        // names which are not in the interface
        for name in ["unknown", "assets", "spec"] {
            ensure!(c.fungible(fname(name), &some).is_err(), "state with an unknown name {name} is reported");
            ensure!(c.data(fname(name), &some).is_err(), "state with an unknown name {name} is reported");
            ensure!(c.rights(fname(name), &some).is_err(), "state with an unknown name {name} is reported");
            ensure!(c.attachments(fname(name), &some).is_err(), "state with an unknown name {name} is reported");
        }
    }
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("the filter selects some but not all of the state of a contract");
    let x = Weights { drop: 1, replace: 1, send: 3, share: 2, refuse: 0.0, ..EVEN };
    ctx.check("filters", 4000, 40000, || view_case(x, 12), |case, cov| {
        let mut inner = Cov::default();
        let world = run_history(&case.h, Flags::default(), &mut inner, |_, _| Ok(()))?;
        for w in 0..WALLETS {
            check_filters(&world, w, case.mask, case.wmask, cov)?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------------------
// C21

type Entry = (u8, u16, AllocatedState, BTreeSet<OpId>, BTreeSet<XOutputSeal>, Option<XWitnessId>);

fn entry(op: &ContractOp) -> Entry {
    let dir = match op.direction {
        OpDirection::Issued => 0,
        OpDirection::Received => 1,
        OpDirection::Sent => 2,
    };
    (dir, op.ty.to_inner(), op.state.clone(), op.opids.clone(), op.to.clone(), op.witness.map(|w| w.id))
}

/// What has to be reported for a given set of own outputs and own witnesses.
fn expected(all: &BTreeSet<Alloc>, own: &BTreeSet<XOutpoint>, mine: &BTreeSet<XWitnessId>) -> Vec<Entry> {
    let mut out = vec![];
    let mut sums: BTreeMap<(u8, Option<XWitnessId>, u16), Entry> = bmap! {};
    for (opout, seal, state, witness) in all {
        let here = own.contains(&XOutpoint::from(*seal));
        let dir = match witness {
            None if here => 0,
            Some(w) if mine.contains(w) && !here => 2,
            Some(w) if !mine.contains(w) && here => 1,
            _ => continue,
        };
        let ty = opout.ty.to_inner();
        match state {
            AllocatedState::Amount(a) => {
                let e = sums.entry((dir, *witness, ty)).or_insert((dir, ty, AllocatedState::Amount(Amount::ZERO), bset![], bset![], *witness));
                let AllocatedState::Amount(s) = &mut e.2 else { unreachable!() };
                *s = Amount::from(s.value().saturating_add(a.value()));
                e.3.insert(opout.op);
                e.4.insert(*seal);
            }
            _ => out.push((dir, ty, state.clone(), bset![opout.op], bset![*seal], *witness)),
        }
    }
    out.extend(sums.into_values());
    out.sort();
    out
}

fn check_history(world: &World, w: usize, own: &BTreeSet<XOutpoint>, mine: &BTreeSet<XWitnessId>, cov: &mut Cov) -> Res<BTreeMap<ContractId, Vec<Entry>>> {
    let wallet = &world.wallets[w];
    let mut res = bmap! {};
    for id in wallet.m.contracts.keys().copied() {
        let all = all_of(wallet, id)?;
        let c = iface_of(world, w, id)?;
        let filter = ByWitness(mine.clone());
        let ops = total("history", || c.history(own, &filter))?;
        for op in &ops {
            if let Some(info) = op.witness {
                ensure_eq!(Some(&info.ord), wallet.m.ords.get(&info.id), "status of the witness {} in the history", info.id);
            }
        }
        let mut list = ops.iter().map(entry).collect::<Vec<_>>();
        list.sort();
        let want = expected(&all, own, mine);
        ensure_eq!(list, want, "history of a contract");
        for (what, part, kind) in [
            ("fungible", total("history", || c.history_fungible(own, &filter))?, 1u8),
            ("rights", total("history", || c.history_rights(own, &filter))?, 0),
            ("data", total("history", || c.history_data(own, &filter))?, 2),
            ("attachments", total("history", || c.history_attach(own, &filter))?, 3),
        ] {
            let mut part = part.iter().map(entry).collect::<Vec<_>>();
            part.sort();
            let want = want
                .iter()
                .filter(|e| match e.2 {
                    AllocatedState::Void => kind == 0,
                    AllocatedState::Amount(_) => kind == 1,
                    AllocatedState::Data(_) => kind == 2,
                    AllocatedState::Attachment(_) => kind == 3,
                })
                .cloned()
                .collect::<Vec<_>>();
            ensure_eq!(part, want, "history of {what}");
        }
        // what is ours does not depend on how it is described
        let vec = own.iter().copied().collect::<Vec<_>>();
        let mut other = total("history", || c.history(&vec, Some(&filter)))?.iter().map(entry).collect::<Vec<_>>();
        other.sort();
        ensure_eq!(other, want, "history of a contract with another kind of filter");
        // any filters are possible
        total("history", || c.history(&FilterIncludeAll, &FilterIncludeAll))?;
        total("history", || c.history(&FilterExclude(own), &FilterExclude(&filter)))?;
        for (n, k) in ["issued", "received", "sent"].into_iter().enumerate() {
            cov.class_if(want.iter().any(|e| e.0 == n as u8), k);
        }
        cov.nontrivial_if(want.iter().any(|e| e.0 == 2) && want.iter().any(|e| e.0 != 2));
        res.insert(id, want);
    }
    Ok(res)
}

fn own_of(world: &World, w: usize) -> (BTreeSet<XOutpoint>, BTreeSet<XWitnessId>) {
    let own = world.owners.iter().filter(|(_, o)| **o == w).map(|(o, _)| xo(world.layer1, *o)).collect();
    let mine = world.txs.iter().filter(|t| t.owner == w).map(|t| t.id).collect();
    (own, mine)
}

/// No payment is hidden from its sender.
fn visible(mut h: History) -> History {
    for s in &mut h.steps {
        match s {
            Step::Pay(p) => p.blinded = false,
            Step::Split { parts, .. } => parts.iter_mut().for_each(|p| p.blinded = false),
            _ => {}
        }
    }
    h
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("histories with both a sent and an issued or received state");
    let x = Weights { refuse: 0.0, send: 3, split: 4, ..EVEN };
    ctx.check("entries", 3000, 30000, || view_case(x, 14), |case, cov| {
        let mut inner = Cov::default();
        let world = run_history(&case.h, Flags::default(), &mut inner, |_, _| Ok(()))?;
        for w in 0..WALLETS {
            let (own, mine) = own_of(&world, w);
            check_history(&world, w, &own, &mine, cov)?;
            // any other division between own and foreign
            let outs = world.owners.keys().enumerate().filter(|(n, _)| case.mask >> (n % 64) & 1 == 1).map(|(_, o)| xo(world.layer1, *o)).collect();
            let wits = world.txs.iter().enumerate().filter(|(n, _)| case.wmask >> (n % 64) & 1 == 1).map(|(_, t)| t.id).collect();
            check_history(&world, w, &outs, &wits, cov)?;
        }
        Ok(())
    });
    let y = Weights { drop: 0, replace: 0, ..x };
    ctx.check("balance", 3000, 30000, || history(y, 16).prop_map(visible), |h, cov| {
        let world = run_history(h, Flags::default(), cov, |_, _| Ok(()))?;
        let spent = world.txs.iter().flat_map(|t| t.infos.iter()).flat_map(|i| i.transition.inputs.iter().map(|i| i.prev_out)).collect::<BTreeSet<_>>();
        for w in 0..WALLETS {
            let (own, mine) = own_of(&world, w);
            for (id, entries) in check_history(&world, w, &own, &mine, cov)? {
                let mut sums: BTreeMap<u16, i128> = bmap! {};
                for (dir, ty, state, ..) in &entries {
                    if let AllocatedState::Amount(a) = state {
                        *sums.entry(*ty).or_default() += if *dir == 2 { -(a.value() as i128) } else { a.value() as i128 };
                    }
                }
                let mut balance: BTreeMap<u16, i128> = bmap! {};
                for ((opout, seal), (state, _)) in world.wallets[w].m.view(id) {
                    let PersistedState::Amount(a, ..) = state else { continue };
                    let o = xo(world.layer1, outpoint(seal));
                    *balance.entry(opout.ty.to_inner()).or_default() += if own.contains(&o) && !spent.contains(&opout) { a.value() as i128 } else { 0 };
                }
                for ty in [ASSET, BONUS] {
                    let (a, b) = (sums.get(&ty).copied().unwrap_or_default(), balance.get(&ty).copied().unwrap_or_default());
                    if a != b {
                        fail!("the history of {} sums up to {a}, but the balance is {b}", owned_name(ty));
                    }
                }
            }
        }
        Ok(())
    });
}
