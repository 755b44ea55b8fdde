//! C23, C24: consistency and inheritance of interfaces, implementations and schemata.

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use amplify::confinement::{Confined, TinyOrdMap, TinyOrdSet};
use amplify::num::u24;
use chrono::{TimeZone, Utc};
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::*;
use rgbstd::containers::*;
use rgbstd::interface::*;
use serde::{Deserialize, Serialize};
use strict_encoding::{FieldName, TypeName, VariantName};
use strict_types::SemId;

use crate::boxes::odd_identity;
use crate::build::*;
use crate::env::*;
use crate::frame::*;
use crate::world::*;
use crate::{ensure, ensure_eq, fail};

/// Number of different names of each kind.
const POOL: u8 = 5;

/// An operation: names are numbers from the pool, occurrences are limits.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct OpG {
    pub modifier: u8,
    pub optional: bool,
    pub metadata: Vec<u8>,
    pub globals: Vec<(u8, u8, u8)>,
    pub inputs: Vec<(u8, u8, u8)>,
    pub assignments: Vec<(u8, u8, u8)>,
    pub valencies: Vec<u8>,
    pub redeems: Vec<u8>,
    pub errors: Vec<u8>,
    pub default: Option<u8>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct IfaceG {
    pub name: u8,
    pub time: i64,
    pub metadata: Vec<(u8, u8)>,
    /// name, type, required, multiple
    pub globals: Vec<(u8, Option<u8>, bool, bool)>,
    /// name, kind, public, required, multiple
    pub assignments: Vec<(u8, u8, bool, bool, bool)>,
    pub valencies: Vec<(u8, bool)>,
    pub genesis: OpG,
    pub transitions: Vec<(u8, OpG)>,
    pub extensions: Vec<(u8, OpG)>,
    pub default: Option<u8>,
    pub errors: Vec<u8>,
    /// which parts are made consistent
    pub tidy: u16,
}

fn fnm(n: u8) -> FieldName { FieldName::from_str(&format!("f{}", n % POOL)).unwrap() }
fn vnm(n: u8) -> VariantName { VariantName::from_str(&format!("e{}", n % POOL)).unwrap() }
fn sem(n: u8) -> SemId { SemId::from([n; 32]) }

fn occ(a: u8, b: u8) -> Occurrences {
    let (a, b) = ((a % 4) as u16, (b % 5) as u16);
    match (a, b) {
        (0, 0) => Occurrences::NoneOrMore,
        (0, 1) => Occurrences::NoneOrOnce,
        (0, b) => Occurrences::NoneOrUpTo(b),
        (1, 0) => Occurrences::OnceOrMore,
        (1, 1) => Occurrences::Once,
        (1, b) => Occurrences::OnceOrUpTo(b),
        (a, b) if b <= a => Occurrences::Exactly(a),
        (a, b) => Occurrences::Range(a..=b),
    }
}
fn least(a: u8) -> u8 { a % 4 }

fn names(l: &[u8]) -> TinyOrdSet<FieldName> { Confined::try_from(l.iter().map(|n| fnm(*n)).collect::<BTreeSet<_>>()).unwrap() }
fn args(l: &[(u8, u8, u8)]) -> ArgMap { Confined::try_from(l.iter().map(|(n, a, b)| (fnm(*n), occ(*a, *b))).collect::<BTreeMap<_, _>>()).unwrap() }
fn errs(l: &[u8]) -> TinyOrdSet<VariantName> { Confined::try_from(l.iter().map(|n| vnm(*n)).collect::<BTreeSet<_>>()).unwrap() }
fn map<K: Ord + std::hash::Hash, V>(i: impl IntoIterator<Item = (K, V)>) -> TinyOrdMap<K, V> { Confined::try_from(i.into_iter().collect::<BTreeMap<_, _>>()).unwrap() }

fn modifier(n: u8) -> Modifier { [Modifier::Abstract, Modifier::Override, Modifier::Final][n as usize % 3] }

fn owned(n: u8) -> OwnedIface {
    match n % 7 {
        0 => OwnedIface::Any,
        1 => OwnedIface::Rights,
        2 => OwnedIface::Amount,
        3 => OwnedIface::AnyData,
        4 => OwnedIface::AnyAttach,
        n => OwnedIface::Data(sem(n)),
    }
}

fn uniq<T: Clone>(l: &mut Vec<T>, key: impl Fn(&T) -> u8) {
    let mut seen = BTreeSet::new();
    l.retain(|x| seen.insert(key(x) % POOL));
}

impl IfaceG {
    /// Names are used once, and references are to declared names if this is requested.
    fn tidied(&self) -> IfaceG {
        let mut g = self.clone();
        uniq(&mut g.metadata, |x| x.0);
        uniq(&mut g.globals, |x| x.0);
        uniq(&mut g.assignments, |x| x.0);
        uniq(&mut g.valencies, |x| x.0);
        uniq(&mut g.transitions, |x| x.0);
        uniq(&mut g.extensions, |x| x.0);
        uniq(&mut g.errors, |x| *x);
        let on = |n: u32| g.tidy >> n & 1 == 1;
        let has = |l: Vec<u8>, n: u8| l.iter().any(|x| x % POOL == n % POOL);
        let meta = g.metadata.iter().map(|x| x.0).collect::<Vec<_>>();
        let val = g.valencies.iter().map(|x| x.0).collect::<Vec<_>>();
        let declared = g.clone();
        for op in std::iter::once(&mut g.genesis).chain(g.transitions.iter_mut().map(|x| &mut x.1)).chain(g.extensions.iter_mut().map(|x| &mut x.1)) {
            uniq(&mut op.globals, |x| x.0);
            uniq(&mut op.inputs, |x| x.0);
            uniq(&mut op.assignments, |x| x.0);
            if declared.tidy & 1 == 1 {
                op.metadata.retain(|n| has(meta.clone(), *n));
                op.globals.retain(|n| declared.globals.iter().any(|d| d.0 % POOL == n.0 % POOL));
            }
            if declared.tidy & 2 == 2 {
                op.assignments.retain(|n| declared.assignments.iter().any(|d| d.0 % POOL == n.0 % POOL));
                op.inputs.retain(|n| declared.assignments.iter().any(|d| d.0 % POOL == n.0 % POOL));
            }
            if declared.tidy & 4 == 4 {
                op.valencies.retain(|n| has(val.clone(), *n));
                op.redeems.retain(|n| has(val.clone(), *n));
                op.errors.retain(|n| has(declared.errors.clone(), *n));
            }
            if declared.tidy & 8 == 8 {
                for x in &mut op.globals {
                    if declared.globals.iter().any(|d| d.0 % POOL == x.0 % POOL && !d.3) {
                        x.1 = least(x.1) % 2;
                    }
                }
                for x in op.assignments.iter_mut().chain(op.inputs.iter_mut()) {
                    if declared.assignments.iter().any(|d| d.0 % POOL == x.0 % POOL && !d.4) {
                        x.1 = least(x.1) % 2;
                    }
                }
            }
            if declared.tidy & 16 == 16 {
                op.default = op.assignments.iter().map(|a| a.0).chain([0]).next().filter(|_| op.default.is_some() && !op.assignments.is_empty());
            }
        }
        if on(5) {
            g.extensions.retain(|e| !declared.transitions.iter().any(|t| t.0 % POOL == e.0 % POOL));
        }
        if on(6) {
            let ops = g.transitions.iter().map(|x| x.0).chain(g.extensions.iter().map(|x| x.0)).collect::<Vec<_>>();
            g.default = g.default.filter(|_| !ops.is_empty()).map(|n| ops[n as usize % ops.len()]);
        }
        if on(7) {
            for d in &declared.globals {
                if d.2 && !g.genesis.globals.iter().any(|x| x.0 % POOL == d.0 % POOL) {
                    g.genesis.globals.push((d.0, 1, 1));
                }
            }
            for d in &declared.assignments {
                if d.3 && !g.genesis.assignments.iter().any(|x| x.0 % POOL == d.0 % POOL) {
                    g.genesis.assignments.push((d.0, 1, 1));
                }
            }
            for d in &declared.valencies {
                if d.1 && !has(g.genesis.valencies.clone(), d.0) {
                    g.genesis.valencies.push(d.0);
                }
            }
        }
        if on(8) {
            g.time = g.time.rem_euclid(1_700_000_000);
        }
        g
    }

    fn iface(&self) -> Iface {
        let t = |op: &OpG| TransitionIface {
            modifier: modifier(op.modifier),
            optional: op.optional,
            metadata: names(&op.metadata),
            globals: args(&op.globals),
            inputs: args(&op.inputs),
            assignments: args(&op.assignments),
            valencies: names(&op.valencies),
            errors: errs(&op.errors),
            default_assignment: op.default.map(fnm),
        };
        let e = |op: &OpG| ExtensionIface {
            modifier: modifier(op.modifier),
            optional: op.optional,
            metadata: names(&op.metadata),
            globals: args(&op.globals),
            assignments: args(&op.assignments),
            redeems: names(&op.redeems),
            valencies: names(&op.valencies),
            errors: errs(&op.errors),
            default_assignment: op.default.map(fnm),
        };
        Iface {
            version: default!(),
            name: TypeName::from_str(&format!("Face{}", self.name)).unwrap(),
            inherits: none!(),
            timestamp: self.time,
            metadata: map(self.metadata.iter().map(|x| (fnm(x.0), sem(x.1)))),
            global_state: map(self.globals.iter().map(|x| (fnm(x.0), GlobalIface { sem_id: x.1.map(sem), required: x.2, multiple: x.3 }))),
            assignments: map(self.assignments.iter().map(|x| (fnm(x.0), AssignIface { owned_state: owned(x.1), public: x.2, required: x.3, multiple: x.4 }))),
            valencies: map(self.valencies.iter().map(|x| (fnm(x.0), ValencyIface { required: x.1 }))),
            genesis: GenesisIface {
                modifier: modifier(self.genesis.modifier),
                metadata: names(&self.genesis.metadata),
                globals: args(&self.genesis.globals),
                assignments: args(&self.genesis.assignments),
                valencies: names(&self.genesis.valencies),
                errors: errs(&self.genesis.errors),
            },
            transitions: map(self.transitions.iter().map(|x| (fnm(x.0), t(&x.1)))),
            extensions: map(self.extensions.iter().map(|x| (fnm(x.0), e(&x.1)))),
            default_operation: self.default.map(fnm),
            errors: map(self.errors.iter().map(|n| (vnm(*n), Confined::try_from(format!("message {}", self.name)).unwrap()))),
            developer: odd_identity(self.name as u64),
        }
    }
}

fn sorted<T: std::fmt::Debug>(l: impl IntoIterator<Item = T>) -> Vec<String> {
    let mut l = l.into_iter().map(|x| format!("{x:?}")).collect::<Vec<_>>();
    l.sort();
    l
}

const FAR: i64 = 200_000_000_000;

/// All what is wrong in a definition, according to the descriptions of errors.
fn wrong(g: &IfaceG) -> Vec<IfaceInconsistency> {
    use IfaceInconsistency as E;
    let mut out = vec![];
    match Utc.timestamp_opt(g.time, 0).single() {
        None => out.push(E::InvalidTimestamp(g.time)),
        Some(t) if g.time >= FAR => out.push(E::FutureTimestamp(t)),
        _ => {}
    }
    let global = |n: u8| g.globals.iter().find(|d| d.0 % POOL == n % POOL);
    let assign = |n: u8| g.assignments.iter().find(|d| d.0 % POOL == n % POOL);
    let valency = |n: u8| g.valencies.iter().any(|d| d.0 % POOL == n % POOL);
    let dedup = |l: &[u8]| l.iter().map(|n| n % POOL).collect::<BTreeSet<_>>();
    let ops = std::iter::once((OpName::Genesis, &g.genesis, 0))
        .chain(g.transitions.iter().map(|(n, op)| (OpName::Transition(fnm(*n)), op, 1)))
        .chain(g.extensions.iter().map(|(n, op)| (OpName::Extension(fnm(*n)), op, 2)));
    for (name, op, kind) in ops {
        for n in dedup(&op.metadata) {
            if !g.metadata.iter().any(|d| d.0 % POOL == n) {
                out.push(E::UnknownMetadata(name.clone(), fnm(n)));
            }
        }
        for (n, a, _) in &op.globals {
            match global(*n) {
                None => out.push(E::UnknownGlobal(name.clone(), fnm(*n))),
                Some(d) if !d.3 && least(*a) > 1 => out.push(E::MultipleGlobal(name.clone(), fnm(*n))),
                _ => {}
            }
        }
        for (n, a, _) in &op.assignments {
            match assign(*n) {
                None => out.push(E::UnknownAssignment(name.clone(), fnm(*n))),
                Some(d) if !d.4 && least(*a) > 1 => out.push(E::MultipleAssignment(name.clone(), fnm(*n))),
                _ => {}
            }
        }
        for n in dedup(&op.valencies) {
            if !valency(n) {
                out.push(E::UnknownValency(name.clone(), fnm(n)));
            }
        }
        for n in dedup(&op.errors) {
            if !g.errors.iter().any(|d| d % POOL == n) {
                out.push(E::UnknownError(name.clone(), vnm(n)));
            }
        }
        if kind == 1 {
            for (n, a, _) in &op.inputs {
                match assign(*n) {
                    None => out.push(E::UnknownInput(name.clone(), fnm(*n))),
                    Some(d) if !d.4 && least(*a) > 1 => out.push(E::MultipleInputs(name.clone(), fnm(*n))),
                    _ => {}
                }
            }
        }
        if kind == 2 {
            for n in dedup(&op.redeems) {
                if !valency(n) {
                    out.push(E::UnknownRedeem(name.clone(), fnm(n)));
                }
            }
        }
        if kind != 0 {
            if let Some(n) = op.default {
                if !op.assignments.iter().any(|a| a.0 % POOL == n % POOL) {
                    out.push(E::UnknownDefaultAssignment(name.clone(), fnm(n)));
                }
            }
        }
    }
    for (n, _) in &g.transitions {
        if g.extensions.iter().any(|e| e.0 % POOL == n % POOL) {
            out.push(E::RepeatedOperationName(fnm(*n)));
        }
    }
    if let Some(n) = g.default {
        if !g.transitions.iter().chain(&g.extensions).any(|t| t.0 % POOL == n % POOL) {
            out.push(E::UnknownDefaultOp(fnm(n)));
        }
    }
    for d in &g.globals {
        if d.2 && !g.genesis.globals.iter().any(|x| x.0 % POOL == d.0 % POOL) {
            out.push(E::RequiredGlobalAbsent(fnm(d.0)));
        }
    }
    for d in &g.assignments {
        if d.3 && !g.genesis.assignments.iter().any(|x| x.0 % POOL == d.0 % POOL) {
            out.push(E::RequiredAssignmentAbsent(fnm(d.0)));
        }
    }
    for d in &g.valencies {
        if d.1 && !g.genesis.valencies.iter().any(|x| x % POOL == d.0 % POOL) {
            out.push(E::RequiredValencyAbsent(fnm(d.0)));
        }
    }
    out
}

fn consistent(g: &IfaceG, cov: &mut Cov) -> Res {
    let g = g.tidied();
    let iface = g.iface();
    let expect = sorted(wrong(&g));
    let got = match total("checking an interface", || iface.check())? {
        Ok(()) => vec![],
        Err(l) => {
            ensure!(!l.is_empty(), "interface is refused without reasons");
            let text = l.iter().map(|e| e.to_string()).collect::<BTreeSet<_>>();
            ensure_eq!(text.len(), l.len(), "number of different messages");
            sorted(l)
        }
    };
    ensure_eq!(got, expect, "inconsistencies");
    cov.class(match expect.len() {
        0 => "consistent",
        1 => "one-defect",
        _ => "defects",
    });
    cov.nontrivial_if(!g.transitions.is_empty() && !g.assignments.is_empty());
    Ok(())
}

fn op_g() -> impl Strategy<Value = OpG> {
    let list = || vec(0u8..POOL, 0..3);
    let args = || vec((0u8..POOL, prop_oneof![4 => 0u8..2, 1 => 0u8..4], 0u8..5), 0..4);
    (prop_oneof![3 => Just(0u8), 3 => Just(1), 1 => Just(2)], any::<bool>(), list(), args(), args(), args(), list(), list(), list(), proptest::option::of(0u8..POOL)).prop_map(
        |(modifier, optional, metadata, globals, inputs, assignments, valencies, redeems, errors, default)| OpG { modifier, optional, metadata, globals, inputs, assignments, valencies, redeems, errors, default },
    )
}

pub fn iface_g() -> impl Strategy<Value = IfaceG> {
    let time = prop_oneof![6 => 0i64..1_700_000_000, 1 => Just(-5i64), 1 => Just(FAR), 1 => Just(i64::MAX), 1 => Just(i64::MIN)];
    let tidy = prop_oneof![3 => Just(0xFFFFu16), 3 => (0u32..9).prop_map(|n| !(1u16 << n)), 2 => any::<u16>()];
    (
        (0u8..200, time, tidy),
        vec((0u8..POOL, 0u8..2), 0..4),
        vec((0u8..POOL, proptest::option::weighted(0.7, 0u8..3), any::<bool>(), any::<bool>()), 0..5),
        vec((0u8..POOL, 0u8..7, any::<bool>(), any::<bool>(), any::<bool>()), 0..5),
        vec((0u8..POOL, any::<bool>()), 0..4),
        op_g(),
        vec((0u8..POOL, op_g()), 0..4),
        vec((0u8..POOL, op_g()), 0..3),
        proptest::option::of(0u8..POOL),
        vec(0u8..POOL, 0..4),
    )
        .prop_map(|((name, time, tidy), metadata, globals, assignments, valencies, genesis, transitions, extensions, default, errors)| IfaceG {
            name,
            time,
            metadata,
            globals,
            assignments,
            valencies,
            genesis,
            transitions,
            extensions,
            default,
            errors,
            tidy,
        })
}

/// An implementation: (id, name) for each kind of elements.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ImplG {
    pub iface: IfaceG,
    /// ids declared by the schema
    pub schema: [Vec<u8>; 6],
    pub fields: [Vec<(u8, u8)>; 6],
    pub errors: Vec<(u8, u8)>,
    pub time: i64,
    /// full: names all the elements of the interface
    pub full: bool,
    pub known: bool,
}

fn schema_of(ids: &[Vec<u8>; 6]) -> Schema {
    let mut s = envs()[0].0.schema.clone();
    let t = s.transitions.values().next().unwrap().clone();
    let e = s.extensions.values().next().unwrap().clone();
    let n = |k: usize| ids[k].iter().map(|n| *n as u16 % 8).collect::<BTreeSet<_>>();
    s.meta_types = map(n(0).into_iter().map(|n| (MetaType::with(n), sem(n as u8))));
    s.global_types = map(n(1).into_iter().map(|n| (gty(n), GlobalStateSchema { reserved: none!(), sem_id: sem(n as u8), max_items: u24::ONE })));
    s.owned_types = map(n(2).into_iter().map(|n| (oty(n), OwnedStateSchema::Declarative)));
    s.valency_types = Confined::try_from(n(3).into_iter().map(ValencyType::with).collect::<BTreeSet<_>>()).unwrap();
    s.transitions = map(n(4).into_iter().map(|n| (TransitionType::with(n), t.clone())));
    s.extensions = map(n(5).into_iter().map(|n| (ExtensionType::with(n), e.clone())));
    s
}

/// The errors of implementations, which are not exported by the library.
#[derive(Clone, Debug)]
#[allow(dead_code)]
enum ImplError {
    InvalidTimestamp(i64),
    FutureTimestamp(chrono::DateTime<Utc>),
    IfaceMetaAbsent(FieldName),
    SchemaMetaAbsent(FieldName, MetaType),
    IfaceGlobalAbsent(FieldName),
    SchemaGlobalAbsent(FieldName, GlobalStateType),
    IfaceAssignmentAbsent(FieldName),
    SchemaAssignmentAbsent(FieldName, AssignmentType),
    IfaceValencyAbsent(FieldName),
    SchemaValencyAbsent(FieldName, ValencyType),
    IfaceTransitionAbsent(FieldName),
    SchemaTransitionAbsent(FieldName, TransitionType),
    IfaceExtensionAbsent(FieldName),
    SchemaExtensionAbsent(FieldName, ExtensionType),
    IfaceErrorAbsent(VariantName),
    RepeatedMetaData(FieldName, i32),
    RepeatedGlobalState(FieldName, i32),
    RepeatedAssignments(FieldName, i32),
    RepeatedValencies(FieldName, i32),
    RepeatedTransitions(FieldName, i32),
    RepeatedExtensions(FieldName, i32),
}

fn implemented(x: &ImplG, cov: &mut Cov) -> Res {
    use ImplError as E;
    let g = x.iface.tidied();
    let iface = g.iface();
    let mut ids = x.schema.clone();
    let mut fields = x.fields.clone();
    let all: [Vec<u8>; 6] = [
        g.metadata.iter().map(|x| x.0).collect(),
        g.globals.iter().map(|x| x.0).collect(),
        g.assignments.iter().map(|x| x.0).collect(),
        g.valencies.iter().map(|x| x.0).collect(),
        g.transitions.iter().filter(|x| !x.1.optional || x.0 % 2 == 0).map(|x| x.0).collect(),
        g.extensions.iter().filter(|x| !x.1.optional || x.0 % 2 == 0).map(|x| x.0).collect(),
    ];
    for k in 0..6 {
        if x.full {
            // each is named once
            uniq(&mut fields[k], |x| x.1);
            for n in &all[k] {
                if !fields[k].iter().any(|f| f.1 % POOL == n % POOL) {
                    fields[k].push((*n, *n));
                }
            }
        }
        if x.known {
            ids[k].extend(fields[k].iter().map(|f| f.0));
        }
    }
    let fields: [BTreeSet<(u16, u8)>; 6] = std::array::from_fn(|k| fields[k].iter().map(|f| (f.0 as u16 % 8, f.1 % POOL)).collect());
    let mut errors = x.errors.clone();
    if x.known {
        errors.retain(|e| g.errors.iter().any(|d| d % POOL == e.1 % POOL));
    }
    let schema = schema_of(&ids);
    fn named<T: SchemaTypeIndex + Ord>(l: &BTreeSet<(u16, u8)>, f: impl Fn(u16) -> T) -> TinyOrdSet<NamedField<T>> {
        // one by one: equality of fields joins different ones when they are collected
        let mut set = TinyOrdSet::new();
        for (id, n) in l {
            set.push(NamedField::with(f(*id), fnm(*n))).unwrap();
        }
        set
    }
    let mut variants = TinyOrdSet::new();
    for (id, n) in &errors {
        variants.push(NamedVariant::with(*id, vnm(*n))).unwrap();
    }
    let ii = IfaceImpl {
        version: default!(),
        schema_id: schema.schema_id(),
        iface_id: iface.iface_id(),
        timestamp: x.time,
        metadata: named(&fields[0], MetaType::with),
        global_state: named(&fields[1], GlobalStateType::with),
        assignments: named(&fields[2], AssignmentType::with),
        valencies: named(&fields[3], ValencyType::with),
        transitions: named(&fields[4], TransitionType::with),
        extensions: named(&fields[5], ExtensionType::with),
        errors: variants,
        developer: odd_identity(1),
    };
    let mut expect = vec![];
    match Utc.timestamp_opt(x.time, 0).single() {
        None => expect.push(E::InvalidTimestamp(x.time)),
        Some(t) if x.time >= FAR => expect.push(E::FutureTimestamp(t)),
        _ => {}
    }
    let declared: [BTreeSet<u16>; 6] = std::array::from_fn(|k| ids[k].iter().map(|n| *n as u16 % 8).collect());
    let required: [Vec<u8>; 6] = [
        all[0].clone(),
        all[1].clone(),
        all[2].clone(),
        all[3].clone(),
        g.transitions.iter().filter(|x| !x.1.optional).map(|x| x.0).collect(),
        g.extensions.iter().filter(|x| !x.1.optional).map(|x| x.0).collect(),
    ];
    for k in 0..6 {
        for n in &required[k] {
            if !fields[k].iter().any(|f| f.1 == n % POOL) {
                let n = fnm(*n);
                expect.push(match k {
                    0 => E::IfaceMetaAbsent(n),
                    1 => E::IfaceGlobalAbsent(n),
                    2 => E::IfaceAssignmentAbsent(n),
                    3 => E::IfaceValencyAbsent(n),
                    4 => E::IfaceTransitionAbsent(n),
                    _ => E::IfaceExtensionAbsent(n),
                });
            }
        }
        for (id, n) in &fields[k] {
            if !declared[k].contains(id) {
                let (id, n) = (*id, fnm(*n));
                expect.push(match k {
                    0 => E::SchemaMetaAbsent(n, MetaType::with(id)),
                    1 => E::SchemaGlobalAbsent(n, gty(id)),
                    2 => E::SchemaAssignmentAbsent(n, oty(id)),
                    3 => E::SchemaValencyAbsent(n, ValencyType::with(id)),
                    4 => E::SchemaTransitionAbsent(n, TransitionType::with(id)),
                    _ => E::SchemaExtensionAbsent(n, ExtensionType::with(id)),
                });
            }
        }
        for n in 0..POOL {
            let count = fields[k].iter().filter(|f| f.1 == n).count() as i32;
            if count > 1 {
                let n = fnm(n);
                expect.push(match k {
                    0 => E::RepeatedMetaData(n, count),
                    1 => E::RepeatedGlobalState(n, count),
                    2 => E::RepeatedAssignments(n, count),
                    3 => E::RepeatedValencies(n, count),
                    4 => E::RepeatedTransitions(n, count),
                    _ => E::RepeatedExtensions(n, count),
                });
                cov.class("repeated");
            }
        }
    }
    for e in &ii.errors {
        if !iface.errors.contains_key(&e.name) {
            expect.push(E::IfaceErrorAbsent(e.name.clone()));
        }
    }
    let got = match total("checking an implementation", || ii.check(&iface, &schema))? {
        Ok(()) => vec![],
        Err(l) => {
            ensure!(!l.is_empty(), "implementation is refused without reasons");
            sorted(l)
        }
    };
    ensure_eq!(got, sorted(expect.clone()), "inconsistencies of an implementation");
    cov.class(match expect.len() {
        0 => "consistent",
        1 => "one-defect",
        _ => "defects",
    });
    cov.nontrivial_if(fields.iter().filter(|f| !f.is_empty()).count() > 2);
    // Names and types of elements
    for f in &ii.global_state {
        if ii.global_state.iter().filter(|o| o.id == f.id).count() == 1 {
            ensure_eq!(ii.global_name(f.id), Some(&f.name), "name of the global state");
        }
        if ii.global_state.iter().filter(|o| o.name == f.name).count() == 1 {
            ensure_eq!(ii.global_type(&f.name), Some(f.id), "type of the global state");
        }
    }
    macro_rules! both {
        ($($list:ident $name:ident $ty:ident;)*) => {$(
            for f in &ii.$list {
                if ii.$list.iter().filter(|o| o.id == f.id).count() == 1 {
                    ensure_eq!(ii.$name(f.id), Some(&f.name), "name of an element");
                }
                if ii.$list.iter().filter(|o| o.name == f.name).count() == 1 {
                    ensure_eq!(ii.$ty(&f.name), Some(f.id), "type of an element");
                }
            }
        )*};
    }
    both! {
        metadata meta_name meta_type;
        assignments assignment_name assignments_type;
        valencies valency_name valency_type;
        transitions transition_name transition_type;
        extensions extension_name extension_type;
    }
    let other = FieldName::from_str("unknown").unwrap();
    ensure!(
        ii.meta_type(&other).is_none() && ii.global_type(&other).is_none() && ii.assignments_type(&other).is_none() && ii.valency_type(&other).is_none() && ii.transition_type(&other).is_none() && ii.extension_type(&other).is_none(),
        "type of an unknown element"
    );
    ensure!(
        ii.meta_name(MetaType::with(99)).is_none() && ii.global_name(gty(99)).is_none() && ii.assignment_name(oty(99)).is_none() && ii.valency_name(ValencyType::with(99)).is_none() && ii.transition_name(TransitionType::with(99)).is_none() && ii.extension_name(ExtensionType::with(99)).is_none(),
        "name of an unknown element"
    );
    Ok(())
}

fn impl_g() -> impl Strategy<Value = ImplG> {
    let ids = || vec(0u8..8, 0..4);
    let fields = || vec((0u8..8, 0u8..POOL), 0..4);
    let time = prop_oneof![6 => 0i64..1_700_000_000, 1 => Just(FAR), 1 => Just(i64::MAX)];
    (iface_g(), [ids(), ids(), ids(), ids(), ids(), ids()], [fields(), fields(), fields(), fields(), fields(), fields()], vec((any::<u8>(), 0u8..POOL), 0..3), time, proptest::bool::weighted(0.8), proptest::bool::weighted(0.8))
        .prop_map(|(iface, schema, fields, errors, time, full, known)| ImplG { iface, schema, fields, errors, time, full, known })
}

pub fn c23(ctx: &Ctx) {
    ctx.rule("an interface with transitions and assignments, or an implementation of more than two kinds of elements");
    ctx.check("interfaces", 1_200_000, 20_000_000, iface_g, consistent);
    ctx.check("implementations", 200_000, 4_000_000, impl_g, implemented);
}

// ---------------------------------------------------------------------------
// C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Family {
    pub list: Vec<IfaceG>,
    /// makes extensions compatible
    pub tame: Vec<bool>,
    /// names over the limit
    pub many: Option<(u8, u8)>,
}

/// Makes `ext` a compatible extension of `base`.
fn tame(base: &Iface, ext: &mut Iface) {
    let ops_final = |m: Modifier| m == Modifier::Final;
    for (n, t) in &base.metadata {
        if let Some(x) = ext.metadata.get_mut(n) {
            *x = *t;
        }
    }
    for (n, d) in &base.global_state {
        if let Some(x) = ext.global_state.get_mut(n) {
            if d.sem_id.is_some() {
                x.sem_id = d.sem_id;
            }
            x.required |= d.required;
        }
    }
    for (n, d) in &base.assignments {
        if let Some(x) = ext.assignments.get_mut(n) {
            if !superset(d.owned_state, x.owned_state) {
                x.owned_state = d.owned_state;
            }
            x.required |= d.required;
            x.public |= d.public;
        }
    }
    for (n, d) in &base.valencies {
        if let Some(x) = ext.valencies.get_mut(n) {
            x.required |= d.required;
        }
    }
    let occs = |base: &ArgMap, ext: &mut ArgMap| {
        for (n, o) in base {
            if let Some(x) = ext.get_mut(n) {
                if x.min_value() < o.min_value() {
                    *x = o.clone();
                }
            }
        }
    };
    if ext.genesis.modifier == Modifier::Abstract {
        ext.genesis.modifier = Modifier::Override;
    }
    occs(&base.genesis.globals, &mut ext.genesis.globals);
    occs(&base.genesis.assignments, &mut ext.genesis.assignments);
    let finals = base.transitions.iter().filter(|t| ops_final(t.1.modifier)).map(|t| t.0.clone()).collect::<Vec<_>>();
    for n in finals {
        ext.transitions.remove(&n).ok();
    }
    let finals = base.extensions.iter().filter(|t| ops_final(t.1.modifier)).map(|t| t.0.clone()).collect::<Vec<_>>();
    for n in finals {
        ext.extensions.remove(&n).ok();
    }
    for (n, d) in &base.transitions {
        if let Some(x) = ext.transitions.get_mut(n) {
            if x.modifier == Modifier::Abstract {
                x.modifier = Modifier::Override;
            }
            occs(&d.globals, &mut x.globals);
            occs(&d.assignments, &mut x.assignments);
            occs(&d.inputs, &mut x.inputs);
            if d.default_assignment.is_some() && x.default_assignment.is_some() {
                x.default_assignment = d.default_assignment.clone();
            }
        }
    }
    for (n, d) in &base.extensions {
        if let Some(x) = ext.extensions.get_mut(n) {
            if x.modifier == Modifier::Abstract {
                x.modifier = Modifier::Override;
            }
            occs(&d.globals, &mut x.globals);
            occs(&d.assignments, &mut x.assignments);
            if d.default_assignment.is_some() && x.default_assignment.is_some() {
                x.default_assignment = d.default_assignment.clone();
            }
        }
    }
    if base.default_operation.is_some() && ext.default_operation.is_some() {
        ext.default_operation = base.default_operation.clone();
    }
}

fn superset(a: OwnedIface, b: OwnedIface) -> bool { a == OwnedIface::Any || a == b || (a == OwnedIface::AnyData && matches!(b, OwnedIface::Data(_))) }

/// The expected result of an extension.
fn joined(base: &Iface, ext: &Iface, name: &TypeName) -> Result<Iface, Vec<ExtensionError>> {
    use ExtensionError as E;
    let mut out = base.clone();
    let mut errors = vec![];
    let add_set = |a: &TinyOrdSet<FieldName>, b: &TinyOrdSet<FieldName>| Confined::try_from(a.iter().chain(b.iter()).cloned().collect::<BTreeSet<_>>()).unwrap();
    let add_err = |a: &TinyOrdSet<VariantName>, b: &TinyOrdSet<VariantName>| Confined::try_from(a.iter().chain(b.iter()).cloned().collect::<BTreeSet<_>>()).unwrap();
    let add_args = |a: &ArgMap, b: &ArgMap, op: &OpName, what: &'static str, errors: &mut Vec<E>| -> ArgMap {
        for (n, o) in b {
            if a.get(n).is_some_and(|x| x.min_value() > o.min_value()) {
                errors.push(E::OpOcc(op.clone(), what, n.clone()));
            }
        }
        map(a.iter().chain(b.iter()).map(|(n, o)| (n.clone(), o.clone())))
    };
    let modif = |a: Modifier, b: Modifier, op: &OpName, errors: &mut Vec<E>| {
        if a == Modifier::Final {
            errors.push(E::OpFinal(op.clone()));
        } else if b == Modifier::Abstract {
            errors.push(E::OpNoOverride(op.clone()));
        }
    };
    for (n, t) in &ext.metadata {
        if base.metadata.get(n).is_some_and(|x| x != t) {
            errors.push(E::MetaType(n.clone()));
        }
    }
    out.metadata = map(base.metadata.iter().chain(ext.metadata.iter()).map(|(n, t)| (n.clone(), *t)));
    for (n, t) in &ext.global_state {
        if let Some(x) = base.global_state.get(n) {
            if x.sem_id.is_some() && x.sem_id != t.sem_id {
                errors.push(E::GlobalType(n.clone()));
            } else if x.required && !t.required {
                errors.push(E::GlobalOcc(n.clone()));
            }
        }
    }
    out.global_state = map(base.global_state.iter().chain(ext.global_state.iter()).map(|(n, t)| (n.clone(), t.clone())));
    for (n, t) in &ext.assignments {
        if let Some(x) = base.assignments.get(n) {
            if !superset(x.owned_state, t.owned_state) {
                errors.push(E::AssignmentType(n.clone()));
            } else if x.required && !t.required {
                errors.push(E::AssignmentOcc(n.clone()));
            } else if x.public && !t.public {
                errors.push(E::AssignmentPublic(n.clone()));
            }
        }
    }
    out.assignments = map(base.assignments.iter().chain(ext.assignments.iter()).map(|(n, t)| (n.clone(), *t)));
    for (n, t) in &ext.valencies {
        if base.valencies.get(n).is_some_and(|x| x.required && !t.required) {
            errors.push(E::ValencyOcc(n.clone()));
        }
    }
    out.valencies = map(base.valencies.iter().chain(ext.valencies.iter()).map(|(n, t)| (n.clone(), t.clone())));

    let (a, b) = (&base.genesis, &ext.genesis);
    let op = OpName::Genesis;
    modif(a.modifier, b.modifier, &op, &mut errors);
    out.genesis = GenesisIface {
        modifier: a.modifier,
        metadata: add_set(&a.metadata, &b.metadata),
        globals: add_args(&a.globals, &b.globals, &op, "global", &mut errors),
        assignments: add_args(&a.assignments, &b.assignments, &op, "assignment", &mut errors),
        valencies: add_set(&a.valencies, &b.valencies),
        errors: add_err(&a.errors, &b.errors),
    };
    for (n, b) in &ext.transitions {
        let op = OpName::Transition(n.clone());
        match base.transitions.get(n) {
            // optional operations only change existing ones
            None if b.optional => {}
            None => {
                out.transitions.insert(n.clone(), b.clone()).unwrap();
            }
            Some(a) => {
                modif(a.modifier, b.modifier, &op, &mut errors);
                if a.default_assignment.is_some() && b.default_assignment.is_some() && a.default_assignment != b.default_assignment {
                    errors.push(E::OpDefaultOverride(op.clone()));
                }
                let t = TransitionIface {
                    modifier: a.modifier,
                    optional: a.optional || b.optional,
                    metadata: add_set(&a.metadata, &b.metadata),
                    globals: add_args(&a.globals, &b.globals, &op, "global", &mut errors),
                    inputs: add_args(&a.inputs, &b.inputs, &op, "input", &mut errors),
                    assignments: add_args(&a.assignments, &b.assignments, &op, "assignment", &mut errors),
                    valencies: add_set(&a.valencies, &b.valencies),
                    errors: add_err(&a.errors, &b.errors),
                    default_assignment: b.default_assignment.clone().or(a.default_assignment.clone()),
                };
                out.transitions.insert(n.clone(), t).unwrap();
            }
        }
    }
    for (n, b) in &ext.extensions {
        let op = OpName::Extension(n.clone());
        match base.extensions.get(n) {
            None if b.optional => {}
            None => {
                out.extensions.insert(n.clone(), b.clone()).unwrap();
            }
            Some(a) => {
                modif(a.modifier, b.modifier, &op, &mut errors);
                if a.default_assignment.is_some() && b.default_assignment.is_some() && a.default_assignment != b.default_assignment {
                    errors.push(E::OpDefaultOverride(op.clone()));
                }
                let t = ExtensionIface {
                    modifier: a.modifier,
                    optional: a.optional || b.optional,
                    metadata: add_set(&a.metadata, &b.metadata),
                    globals: add_args(&a.globals, &b.globals, &op, "global", &mut errors),
                    assignments: add_args(&a.assignments, &b.assignments, &op, "assignment", &mut errors),
                    redeems: add_set(&a.redeems, &b.redeems),
                    valencies: add_set(&a.valencies, &b.valencies),
                    errors: add_err(&a.errors, &b.errors),
                    default_assignment: b.default_assignment.clone().or(a.default_assignment.clone()),
                };
                out.extensions.insert(n.clone(), t).unwrap();
            }
        }
    }
    out.errors = map(base.errors.iter().chain(ext.errors.iter()).map(|(n, t)| (n.clone(), t.clone())));
    if base.default_operation.is_some() && ext.default_operation.is_some() && base.default_operation != ext.default_operation {
        errors.push(E::DefaultOverride);
    }
    out.default_operation = ext.default_operation.clone().or(base.default_operation.clone());
    out.name = name.clone();
    let inherits = base.inherits.iter().copied().chain([base.iface_id()]).chain(ext.inherits.iter().copied()).chain([ext.iface_id()]).collect::<Vec<_>>();
    out.inherits = Confined::try_from(inherits).unwrap();
    if errors.is_empty() {
        Ok(out)
    } else {
        Err(errors)
    }
}

/// Modifiers are not compared: see the recorded finding.
fn plain(iface: &Iface) -> Vec<u8> {
    let mut i = iface.clone();
    i.genesis.modifier = Modifier::Abstract;
    for t in i.transitions.values_mut() {
        t.modifier = Modifier::Abstract;
    }
    for t in i.extensions.values_mut() {
        t.modifier = Modifier::Abstract;
    }
    strict(&i)
}

fn family(x: &Family, cov: &mut Cov) -> Res {
    let mut base = x.list[0].tidied().iface();
    let mut all = vec![base.clone()];
    let name = TypeName::from_str("Joined").unwrap();
    let mut joins = 0;
    for (n, g) in x.list.iter().enumerate().skip(1) {
        let mut ext = g.tidied().iface();
        if x.tame[n % x.tame.len()] {
            tame(&base, &mut ext);
            if base.genesis.modifier == Modifier::Final {
                base.genesis.modifier = Modifier::Override;
                all = vec![base.clone()];
            }
        }
        let expect = joined(&base, &ext, &name);
        let got = total("extending an interface", || base.clone().extended(ext.clone(), name.clone()))?;
        let folded = total("inheriting", || Iface::inherit(name.clone(), [base.clone(), ext.clone()]))?;
        match (got, expect) {
            (Ok(got), Ok(expect)) => {
                ensure!(plain(&got) == plain(&expect), "extended interface is {got:#?} instead of {expect:#?}");
                ensure!(matches!(&folded, Ok(f) if strict(f) == strict(&got)), "inheritance gives another interface");
                // nothing is lost
                for part in [&base, &ext] {
                    ensure!(part.metadata.keys().all(|n| got.metadata.contains_key(n)), "metadata are lost");
                    ensure!(part.global_state.keys().all(|n| got.global_state.contains_key(n)), "global state is lost");
                    ensure!(part.assignments.keys().all(|n| got.assignments.contains_key(n)), "owned state is lost");
                    ensure!(part.valencies.keys().all(|n| got.valencies.contains_key(n)), "valencies are lost");
                    ensure!(part.transitions.iter().all(|(n, t)| t.optional || got.transitions.contains_key(n)), "transitions are lost");
                    ensure!(part.extensions.iter().all(|(n, t)| t.optional || got.extensions.contains_key(n)), "extensions are lost");
                    ensure!(got.inherits.contains(&part.iface_id()), "parent interface is not named");
                }
                ensure!(all.iter().all(|i| got.inherits.contains(&i.iface_id())), "ancestor is not named");
                all.push(ext);
                all.push(got.clone());
                base = got;
                joins += 1;
            }
            (Err(got), Err(expect)) => {
                ensure_eq!(sorted(got.clone()), sorted(expect), "conflicts");
                ensure!(folded.is_err(), "conflicts are ignored by inheritance");
                cov.class("conflict");
                for e in got {
                    ensure!(!e.to_string().is_empty(), "empty message");
                }
            }
            (Ok(_), Err(e)) => fail!("interfaces are joined although there are conflicts: {}", e[0]),
            (Err(e), Ok(_)) => fail!("interfaces without conflicts are not joined: {}", e[0]),
        }
    }
    // Limits
    if let Some((kind, count)) = x.many {
        let list = |a: u16, b: u16| (a..b).map(|n| FieldName::from_str(&format!("n{n}")).unwrap());
        let mut a = IfaceG::default().iface();
        let mut b = a.clone();
        b.genesis.modifier = Modifier::Override;
        b.name = TypeName::from_str("Other").unwrap();
        let n = count as u16;
        let (x, y) = (list(0, 200), list(200 - 20, 200 + n % 110));
        let fits = 200.max(200 + n % 110) <= 255;
        match kind % 8 {
            0 => {
                a.metadata = map(x.map(|n| (n, sem(0))));
                b.metadata = map(y.map(|n| (n, sem(0))));
            }
            1 => {
                let g = GlobalIface::any(Req::NoneOrMore);
                a.global_state = map(x.map(|n| (n, g.clone())));
                b.global_state = map(y.map(|n| (n, g.clone())));
            }
            2 => {
                let g = AssignIface::private(OwnedIface::Any, Req::NoneOrMore);
                a.assignments = map(x.map(|n| (n, g.clone())));
                b.assignments = map(y.map(|n| (n, g.clone())));
            }
            3 => {
                let g = ValencyIface { required: false };
                a.valencies = map(x.map(|n| (n, g.clone())));
                b.valencies = map(y.map(|n| (n, g.clone())));
            }
            4 => {
                let t = TransitionIface { modifier: Modifier::Override, optional: false, metadata: none!(), globals: none!(), inputs: none!(), assignments: none!(), valencies: none!(), errors: none!(), default_assignment: None };
                a.transitions = map(x.map(|n| (n, t.clone())));
                b.transitions = map(y.map(|n| (n, t.clone())));
            }
            5 => {
                let t = ExtensionIface { modifier: Modifier::Override, optional: false, metadata: none!(), globals: none!(), redeems: none!(), assignments: none!(), valencies: none!(), errors: none!(), default_assignment: None };
                a.extensions = map(x.map(|n| (n, t.clone())));
                b.extensions = map(y.map(|n| (n, t.clone())));
            }
            6 => {
                a.genesis.globals = map(x.map(|n| (n, Occurrences::NoneOrMore)));
                b.genesis.globals = map(y.map(|n| (n, Occurrences::NoneOrMore)));
            }
            _ => {
                a.inherits = Confined::try_from((0..200).map(|n| IfaceId::from([n as u8; 32])).collect::<Vec<_>>()).unwrap();
                b.inherits = Confined::try_from((0..n % 110).map(|n| IfaceId::from([n as u8 + 1; 32])).collect::<Vec<_>>()).unwrap();
            }
        }
        let fits = if kind % 8 == 7 { 202 + n % 110 <= 255 } else { fits };
        match total("extending an interface", || a.clone().extended(b.clone(), name.clone()))? {
            Ok(_) => ensure!(fits, "interfaces are joined over the limit"),
            Err(e) => {
                // collections at their very limits may refuse also the known elements
                ensure!(!fits, "interfaces are not joined: {}", e[0]);
                let what = ["metadata", "global", "assignment", "valency", "transition", "extension", "global", "inheritance"][kind as usize % 8];
                ensure!(e.iter().all(|e| e.to_string().contains(what)), "reason of a refusal is {e:?}");
            }
        }
        cov.class("limits");
    }
    cov.class_if(joins > 1, "several-generations");
    cov.nontrivial_if(joins > 0);
    Ok(())
}

fn families() -> impl Strategy<Value = Family> {
    (vec(iface_g(), 2..5), vec(proptest::bool::weighted(0.75), 4), proptest::option::weighted(0.05, (any::<u8>(), any::<u8>()))).prop_map(|(list, tame, many)| Family { list, tame, many })
}

/// Implementation of a joined interface seen through each of the parents.
fn translated(x: &Family, cov: &mut Cov) -> Res {
    let mut base = x.list[0].tidied().iface();
    base.genesis.modifier = Modifier::Abstract;
    let mut parents = vec![base.clone()];
    let name = TypeName::from_str("Joined").unwrap();
    for g in x.list.iter().skip(1) {
        let mut ext = g.tidied().iface();
        tame(&base, &mut ext);
        base = total("extending an interface", || base.clone().extended(ext.clone(), name.clone()))?.map_err(|e| Fail::new(format!("interfaces without conflicts are not joined: {}", e[0])))?;
        parents.push(ext);
        parents.push(base.clone());
    }
    parents.pop();
    let mut n = 0u16;
    let mut next = || {
        n += 1;
        n * 7 % 1000
    };
    let ii = IfaceImpl {
        version: default!(),
        schema_id: envs()[0].0.schema.schema_id(),
        iface_id: base.iface_id(),
        timestamp: 5,
        metadata: Confined::try_from(base.metadata.keys().map(|n| NamedField::with(MetaType::with(next()), n.clone())).collect::<BTreeSet<_>>()).unwrap(),
        global_state: Confined::try_from(base.global_state.keys().map(|n| NamedField::with(gty(next()), n.clone())).collect::<BTreeSet<_>>()).unwrap(),
        assignments: Confined::try_from(base.assignments.keys().map(|n| NamedField::with(oty(next()), n.clone())).collect::<BTreeSet<_>>()).unwrap(),
        valencies: Confined::try_from(base.valencies.keys().map(|n| NamedField::with(ValencyType::with(next()), n.clone())).collect::<BTreeSet<_>>()).unwrap(),
        transitions: Confined::try_from(base.transitions.keys().map(|n| NamedField::with(TransitionType::with(next()), n.clone())).collect::<BTreeSet<_>>()).unwrap(),
        extensions: Confined::try_from(base.extensions.keys().map(|n| NamedField::with(ExtensionType::with(next()), n.clone())).collect::<BTreeSet<_>>()).unwrap(),
        errors: Confined::try_from(base.errors.keys().map(|n| NamedVariant::with(next() as u8, n.clone())).collect::<BTreeSet<_>>()).unwrap(),
        developer: odd_identity(1),
    };
    for parent in &parents {
        let Some(got) = total("translating an implementation", || ii.clone().abstracted(&base, parent))? else { fail!("implementation is not translated to a parent interface") };
        ensure_eq!(got.iface_id, parent.iface_id(), "interface");
        ensure_eq!((got.schema_id, got.version, got.timestamp, &got.developer), (ii.schema_id, ii.version, ii.timestamp, &ii.developer), "other fields");
        macro_rules! kept {
            ($($f:ident $p:ident;)*) => {$(
                let a = got.$f.iter().map(strict).collect::<BTreeSet<_>>();
                let b = ii.$f.iter().filter(|x| parent.$p.contains_key(&x.name)).map(strict).collect::<BTreeSet<_>>();
                ensure!(a == b, concat!(stringify!($f), " of a translated implementation are {:?} instead of these named by the parent"), got.$f);
            )*};
        }
        kept! {
            metadata metadata;
            global_state global_state;
            assignments assignments;
            valencies valencies;
            transitions transitions;
            extensions extensions;
            errors errors;
        }
        cov.class_if(!got.valencies.is_empty(), "valencies");
        cov.class_if(!got.errors.is_empty(), "errors");
        cov.nontrivial_if(!got.assignments.is_empty());
    }
    let mut other = parents[0].clone();
    other.name = TypeName::from_str("Unrelated").unwrap();
    ensure!(total("translating an implementation", || ii.clone().abstracted(&base, &other))?.is_none(), "implementation is translated to an unrelated interface");
    Ok(())
}

// Schemata

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sub {
    /// elements removed from the root
    pub cut: Vec<(u8, u8)>,
    /// elements changed or added
    pub alter: Vec<(u8, u8, u8)>,
}

fn root_schema() -> Schema {
    let mut s = envs()[0].0.schema.clone();
    for n in 10..13u16 {
        s.valency_types.push(ValencyType::with(n)).unwrap();
        s.global_types.insert(gty(n), GlobalStateSchema { reserved: none!(), sem_id: sem(n as u8), max_items: u24::ONE }).unwrap();
        s.owned_types.insert(oty(n), OwnedStateSchema::Structured(sem(n as u8))).unwrap();
        let mut e = s.extensions.values().next().unwrap().clone();
        e.redeems.push(ValencyType::with(n)).unwrap();
        // lists of different kinds have different elements
        let next = 10 + (n - 9) % 3;
        let more = [Occurrences::Once, Occurrences::NoneOrMore, Occurrences::OnceOrMore][n as usize % 3].clone();
        e.valencies.push(ValencyType::with(next)).unwrap();
        e.globals.insert(gty(n), more.clone()).unwrap();
        e.assignments.insert(oty(next), more.clone()).unwrap();
        s.extensions.insert(ExtensionType::with(n), e).unwrap();
        if let Some(t) = s.transitions.values_mut().nth(n as usize % 3) {
            t.valencies.push(ValencyType::with(n)).unwrap();
            t.globals.insert(gty(next), more.clone()).unwrap();
            t.inputs.insert(oty(n), more.clone()).unwrap();
            t.assignments.insert(oty(next), more).unwrap();
        }
    }
    s
}

fn inherited(x: &Sub, cov: &mut Cov) -> Res {
    use InheritanceFailure as F;
    let root = root_schema();
    let mut s = root.clone();
    fn cut_map<K: Ord + Clone + std::hash::Hash, V>(m: &mut TinyOrdMap<K, V>, n: u8) {
        if m.is_empty() {
            return;
        }
        let k = m.keys().nth(n as usize % m.len()).unwrap().clone();
        m.remove(&k).ok();
    }
    fn cut_set<K: Ord + Clone>(m: &mut TinyOrdSet<K>, n: u8) {
        if m.is_empty() {
            return;
        }
        let k = m.iter().nth(n as usize % m.len()).unwrap().clone();
        m.remove(&k).ok();
    }
    for (kind, n) in &x.cut {
        let (a, b) = (n % 8, n / 8);
        match kind % 16 {
            0 => cut_map(&mut s.global_types, *n),
            1 => cut_map(&mut s.owned_types, *n),
            2 => cut_set(&mut s.valency_types, *n),
            3 => cut_map(&mut s.transitions, *n),
            4 => cut_map(&mut s.extensions, *n),
            5 => cut_map(&mut s.genesis.globals, *n),
            6 => cut_map(&mut s.genesis.assignments, *n),
            7 => cut_set(&mut s.genesis.valencies, *n),
            k => {
                let len = s.transitions.len().max(1);
                if let Some(t) = s.transitions.values_mut().nth(a as usize % len) {
                    match k {
                        8 => cut_map(&mut t.globals, b),
                        9 => cut_map(&mut t.inputs, b),
                        10 => cut_map(&mut t.assignments, b),
                        11 => cut_set(&mut t.valencies, b),
                        _ => {}
                    }
                }
                let len = s.extensions.len().max(1);
                if let Some(t) = s.extensions.values_mut().nth(a as usize % len) {
                    match k {
                        12 => cut_map(&mut t.globals, b),
                        13 => cut_set(&mut t.redeems, b),
                        14 => cut_map(&mut t.assignments, b),
                        15 => cut_set(&mut t.valencies, b),
                        _ => {}
                    }
                }
            }
        }
    }
    let mut expect = vec![];
    fn put_occ<K: Ord + Copy + std::hash::Hash>(m: &mut TinyOrdMap<K, Occurrences>, root: Option<&TinyOrdMap<K, Occurrences>>, k: K, v: u8) -> bool {
        let o = occ(v, v / 4);
        m.insert(k, o.clone()).unwrap();
        root.is_some_and(|r| r.get(&k) != Some(&o))
    }
    fn put_set<K: Ord + Copy>(m: &mut TinyOrdSet<K>, root: Option<&TinyOrdSet<K>>, k: K) -> bool {
        m.push(k).unwrap();
        root.is_some_and(|r| !r.contains(&k))
    }
    // types 0..: some are of the root
    for (kind, n, v) in &x.alter {
        let n16 = *n as u16 % 16;
        match kind % 16 {
            0 => {
                let d = if v % 3 == 0 { root.global_types.get(&gty(n16)).cloned() } else { None }.unwrap_or(GlobalStateSchema { reserved: none!(), sem_id: sem(*v), max_items: u24::ONE });
                s.global_types.insert(gty(n16), d.clone()).unwrap();
                if root.global_types.get(&gty(n16)) != Some(&d) {
                    expect.push(F::GlobalStateMismatch(gty(n16)));
                }
            }
            1 => {
                let d = [OwnedStateSchema::Declarative, OwnedStateSchema::Fungible(FungibleType::Unsigned64Bit), OwnedStateSchema::Structured(sem(*n)), OwnedStateSchema::Attachment(MediaType::Any)][*v as usize % 4];
                s.owned_types.insert(oty(n16), d).unwrap();
                if root.owned_types.get(&oty(n16)) != Some(&d) {
                    expect.push(F::AssignmentTypeMismatch(oty(n16)));
                }
            }
            2 => {
                if put_set(&mut s.valency_types, Some(&root.valency_types), ValencyType::with(n16)) {
                    expect.push(F::ValencyTypeMismatch(ValencyType::with(n16)));
                }
            }
            3 => {
                let k = TransitionType::with(n16);
                if !root.transitions.contains_key(&k) {
                    s.transitions.insert(k, root.transitions.values().next().unwrap().clone()).unwrap();
                    expect.push(F::TransitionTypeMismatch(k));
                }
            }
            4 => {
                let k = ExtensionType::with(n16);
                if !root.extensions.contains_key(&k) {
                    s.extensions.insert(k, root.extensions.values().next().unwrap().clone()).unwrap();
                    expect.push(F::ExtensionTypeMismatch(k));
                }
            }
            5 => {
                if put_occ(&mut s.genesis.globals, Some(&root.genesis.globals), gty(n16), *v) {
                    expect.push(F::OpGlobalStateMismatch(OpFullType::Genesis, gty(n16)));
                }
            }
            6 => {
                if put_occ(&mut s.genesis.assignments, Some(&root.genesis.assignments), oty(n16), *v) {
                    expect.push(F::OpAssignmentsMismatch(OpFullType::Genesis, oty(n16)));
                }
            }
            7 => {
                if put_set(&mut s.genesis.valencies, Some(&root.genesis.valencies), ValencyType::with(n16)) {
                    expect.push(F::OpValencyMismatch(OpFullType::Genesis, ValencyType::with(n16)));
                }
            }
            k @ 8..=11 => {
                let Some(id) = s.transitions.keys().nth(*n as usize / 16 % s.transitions.len().max(1)).copied() else { continue };
                let op = OpFullType::StateTransition(id);
                let r = root.transitions.get(&id);
                let t = s.transitions.get_mut(&id).unwrap();
                match k {
                    8 => {
                        if put_occ(&mut t.globals, r.map(|r| &r.globals), gty(n16), *v) {
                            expect.push(F::OpGlobalStateMismatch(op, gty(n16)));
                        }
                    }
                    9 => {
                        if put_occ(&mut t.inputs, r.map(|r| &r.inputs), oty(n16), *v) {
                            expect.push(F::OpInputMismatch(op, oty(n16)));
                        }
                    }
                    10 => {
                        if put_occ(&mut t.assignments, r.map(|r| &r.assignments), oty(n16), *v) {
                            expect.push(F::OpAssignmentsMismatch(op, oty(n16)));
                        }
                    }
                    _ => {
                        if put_set(&mut t.valencies, r.map(|r| &r.valencies), ValencyType::with(n16)) {
                            expect.push(F::OpValencyMismatch(op, ValencyType::with(n16)));
                        }
                    }
                }
            }
            k => {
                let Some(id) = s.extensions.keys().nth(*n as usize / 16 % s.extensions.len().max(1)).copied() else { continue };
                let op = OpFullType::StateExtension(id);
                let r = root.extensions.get(&id);
                let t = s.extensions.get_mut(&id).unwrap();
                match k {
                    12 => {
                        if put_occ(&mut t.globals, r.map(|r| &r.globals), gty(n16), *v) {
                            expect.push(F::OpGlobalStateMismatch(op, gty(n16)));
                        }
                    }
                    13 => {
                        if put_set(&mut t.redeems, r.map(|r| &r.redeems), ValencyType::with(n16)) {
                            expect.push(F::OpRedeemMismatch(op, ValencyType::with(n16)));
                        }
                    }
                    14 => {
                        if put_occ(&mut t.assignments, r.map(|r| &r.assignments), oty(n16), *v) {
                            expect.push(F::OpAssignmentsMismatch(op, oty(n16)));
                        }
                    }
                    _ => {
                        if put_set(&mut t.valencies, r.map(|r| &r.valencies), ValencyType::with(n16)) {
                            expect.push(F::OpValencyMismatch(op, ValencyType::with(n16)));
                        }
                    }
                }
            }
        }
    }
    // An element changed again is judged by its last form
    let mut last = vec![];
    for f in expect {
        let still = match &f {
            F::GlobalStateMismatch(t) => s.global_types.get(t) != root.global_types.get(t),
            F::AssignmentTypeMismatch(t) => s.owned_types.get(t) != root.owned_types.get(t),
            F::OpGlobalStateMismatch(OpFullType::Genesis, t) => s.genesis.globals.get(t) != root.genesis.globals.get(t),
            F::OpAssignmentsMismatch(OpFullType::Genesis, t) => s.genesis.assignments.get(t) != root.genesis.assignments.get(t),
            F::OpGlobalStateMismatch(OpFullType::StateTransition(i), t) => s.transitions[i].globals.get(t) != root.transitions[i].globals.get(t),
            F::OpInputMismatch(OpFullType::StateTransition(i), t) => s.transitions[i].inputs.get(t) != root.transitions[i].inputs.get(t),
            F::OpAssignmentsMismatch(OpFullType::StateTransition(i), t) => s.transitions[i].assignments.get(t) != root.transitions[i].assignments.get(t),
            F::OpGlobalStateMismatch(OpFullType::StateExtension(i), t) => s.extensions[i].globals.get(t) != root.extensions[i].globals.get(t),
            F::OpAssignmentsMismatch(OpFullType::StateExtension(i), t) => s.extensions[i].assignments.get(t) != root.extensions[i].assignments.get(t),
            _ => true,
        };
        if still && !last.contains(&f) {
            last.push(f);
        }
    }
    let got = match total("checking inheritance", || s.check_inheritance(&root))? {
        Ok(()) => vec![],
        Err(l) => {
            ensure!(!l.is_empty(), "schema is refused without reasons");
            sorted(l)
        }
    };
    ensure_eq!(got, sorted(last.clone()), "failures of inheritance");
    ensure!(root.check_inheritance(&root).is_ok(), "schema doesn't inherit itself");
    cov.class(if last.is_empty() { "inherits" } else { "differs" });
    cov.nontrivial_if(!x.cut.is_empty() && !x.alter.is_empty());
    Ok(())
}

/// Contracts seen through interfaces derived from the implemented one.
fn through(h: &(History, IfaceG, u8), cov: &mut Cov) -> Res {
    let (h, g, n) = h;
    let mut world = run_history(h, Flags::default(), cov, |_, _| Ok(()))?;
    let base = envs()[0].0.iface.clone();
    let mut abstracted = base.clone();
    abstracted.genesis.modifier = Modifier::Abstract;
    // a derived interface names the implemented one among its parents
    let mut derived = base.clone();
    derived.name = TypeName::from_str("Derived").unwrap();
    derived.inherits = match n % 3 {
        0 => Confined::try_from(vec![base.iface_id()]).unwrap(),
        1 => Confined::try_from(vec![IfaceId::from([3; 32]), base.iface_id()]).unwrap(),
        _ => Confined::try_from(vec![base.iface_id(), IfaceId::from([4; 32])]).unwrap(),
    };
    let mut other = g.tidied().iface();
    other.name = TypeName::from_str("Unrelated").unwrap();
    for w in 0..WALLETS {
        let mut kit = Kit::default();
        kit.ifaces.push(derived.clone()).unwrap();
        kit.ifaces.push(other.clone()).unwrap();
        kit.types = envs()[0].0.types.clone();
        let kit = kit.validate().map_err(|_| Fail::new("kit is not valid"))?;
        total("importing a kit", || world.wallets[w].stock.import_kit(kit))?.map_err(|e| Fail::new(format!("kit was not imported: {e}")))?;
        let stock = &world.wallets[w].stock;
        for id in world.wallets[w].m.contracts.keys() {
            if world.env_of(*id) == 2 {
                for r in [base.iface_id(), derived.iface_id(), other.iface_id()] {
                    ensure!(total("contract through an interface", || stock.contract_iface(*id, r).map(|_| ()))?.is_err(), "contract is found through an unrelated interface");
                }
                continue;
            }
            let a = total("contract through an interface", || stock.contract_iface(*id, base.iface_id()))?.map_err(|e| Fail::new(format!("contract is not found through its interface: {e}")))?;
            for r in [IfaceRef::Id(derived.iface_id()), IfaceRef::Name(derived.name.clone())] {
                let b = total("contract through an interface", || stock.contract_iface(*id, r.clone()))?.map_err(|e| Fail::new(format!("contract is not found through a derived interface: {e}")))?;
                for (ty, name) in OWNED {
                    let name = fname(name);
                    let show = |c: &ContractIface<_>| -> Vec<String> {
                        let mut l = vec![];
                        match ty {
                            ASSET | BONUS => l.extend(c.fungible(name.clone(), &FilterIncludeAll).map(|i| i.map(|x| format!("{x:?}")).collect::<Vec<_>>()).unwrap_or(vec!["error".into()])),
                            RIGHT => l.extend(c.rights(name.clone(), &FilterIncludeAll).map(|i| i.map(|x| format!("{x:?}")).collect::<Vec<_>>()).unwrap_or(vec!["error".into()])),
                            TOKEN => l.extend(c.data(name.clone(), &FilterIncludeAll).map(|i| i.map(|x| format!("{x:?}")).collect::<Vec<_>>()).unwrap_or(vec!["error".into()])),
                            _ => {}
                        }
                        l
                    };
                    let (x, y) = (show(&a), show(&b));
                    ensure_eq!(x, y, "state seen through a derived interface");
                    cov.nontrivial_if(!x.is_empty());
                }
                for g in ["spec", "log", "note", "terms", "supply"] {
                    let show = |c: &ContractIface<_>| c.global(g).map(|i| i.map(|x| format!("{x:?}")).collect::<Vec<_>>()).ok();
                    ensure_eq!(show(&a), show(&b), "global state seen through a derived interface");
                }
            }
            ensure!(total("contract through an interface", || stock.contract_iface(*id, other.iface_id()).map(|_| ()))?.is_err(), "contract is found through an unrelated interface");
        }
    }
    Ok(())
}

const FINAL_SIG: &str = "final-forgotten-by-extension";

/// An operation made final by an extension can't be overridden later.
fn finals() -> Res {
    let mut a = IfaceG::default().iface();
    a.genesis.modifier = Modifier::Abstract;
    let mut b = a.clone();
    b.name = TypeName::from_str("Last").unwrap();
    b.genesis.modifier = Modifier::Final;
    let mut c = a.clone();
    c.name = TypeName::from_str("Late").unwrap();
    c.genesis.modifier = Modifier::Override;
    let ab = a.extended(b, "Joined").map_err(|e| Fail::new(format!("interfaces without conflicts are not joined: {}", e[0])))?;
    if ab.extended(c, "Again").is_ok() {
        return Err(Fail::sig(FINAL_SIG, "genesis made final by an extension is overridden by the next one"));
    }
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("interfaces which were joined, translated implementations with owned state, schemata with removed and altered elements, or contracts with state seen through a derived interface");
    ctx.probe("finals", finals);
    ctx.check("extensions", 25000, 800_000, families, family);
    ctx.check("translations", 15000, 500_000, families, translated);
    ctx.check("schemata", 500_000, 10_000_000, || (vec((any::<u8>(), any::<u8>()), 0..6), vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..5)).prop_map(|(cut, alter)| Sub { cut, alter }), inherited);
    const CALM: Weights = Weights { deliver: 4, send: 2, share: 2, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };
    ctx.check("through", 700, 30_000, || (history(CALM, 5), iface_g(), any::<u8>()), through);
}
