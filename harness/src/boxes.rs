//! C05, C06: containers in all the forms in which they are stored.

use std::fmt::Debug;
use std::str::FromStr;

use amplify::confinement::Confined;
use armor::{AsciiArmor, StrictArmor};
use proptest::collection::vec;
use proptest::prelude::*;
use rgb::*;
use rgbstd::containers::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use strict_encoding::{StrictDeserialize, StrictDumb, StrictSerialize};

use crate::alter::*;
use crate::build::*;
use crate::frame::*;
use crate::gen::*;
use crate::mem::*;
use crate::store::*;
use crate::world::*;
use crate::{ensure, ensure_eq, fail};

// ---------------------------------------------------------------------------
// Generated containers

#[derive(Clone, Debug)]
pub enum Item {
    Kit(Kit),
    Contract(Contract),
    Transfer(Transfer),
    Batch(Batch),
    Fascia(Fascia),
}

impl Item {
    pub fn name(&self) -> &'static str {
        match self {
            Item::Kit(_) => "kit",
            Item::Contract(_) => "contract",
            Item::Transfer(_) => "transfer",
            Item::Batch(_) => "batch",
            Item::Fascia(_) => "fascia",
        }
    }
}

/// Developers and signers with all kinds of printable names.
pub fn odd_identity(n: u64) -> Identity {
    let list = [
        "ssi:anonymous", "alice.example", "a;b", "a=b", "Bob, Carol", "x: y", "a;id=b; c", "-", "=", ";", " x ", "-----END RGB KIT-----",
        "Check-SHA256: 00", "Id: 1", "~!@#$%^&*()_+{}|:\"<>?`[]\\;',./", "x",
    ];
    let s = match n % 20 {
        n if (n as usize) < list.len() => list[n as usize].to_owned(),
        16 => "long name ".repeat(409),
        17 => "y".repeat(4096),
        _ => format!("dev{}", n >> 8),
    };
    serde_json::from_value(serde_json::Value::String(s)).expect("printable identity")
}

pub fn odd_sigs(n: u64) -> ContentSigs {
    let list = (0..1 + n % 4).map(|k| (odd_identity(mix(n, k)), sig(mix(n, k + 10)))).collect::<std::collections::BTreeMap<_, _>>();
    ContentSigs::from(Confined::try_from(list).unwrap())
}

pub fn odd_supplement(r: ContentRef, n: u64) -> Supplement {
    let mut s = supplement(r, n);
    s.creator = odd_identity(n >> 3);
    if n % 3 == 0 {
        s.annotate_itself("Other", &note(n)).expect("small annotation");
    }
    s
}


fn dress_schema(schema: &mut Schema, n: u64) { schema.developer = odd_identity(n); }

fn dress_kit(kit: &mut Kit, n: u64) {
    let bits = mix(n, 1);
    let mut schemata = kit.schemata.iter().cloned().collect::<Vec<_>>();
    let mut ifaces = kit.ifaces.iter().cloned().collect::<Vec<_>>();
    let mut iimpls = kit.iimpls.iter().cloned().collect::<Vec<_>>();
    if bits & 1 == 1 {
        schemata.iter_mut().for_each(|s| dress_schema(s, mix(n, 2)));
        ifaces.iter_mut().for_each(|s| s.developer = odd_identity(mix(n, 3)));
        iimpls.iter_mut().for_each(|s| s.developer = odd_identity(mix(n, 4)));
    }
    if bits & 2 == 2 {
        let more = schemata.iter().cloned().map(|mut s| {
            s.timestamp = s.timestamp.wrapping_add(1);
            s
        });
        schemata.extend(more.collect::<Vec<_>>());
        let more = ifaces.iter().cloned().map(|mut s| {
            s.timestamp = s.timestamp.wrapping_add(1);
            s
        });
        ifaces.extend(more.collect::<Vec<_>>());
    }
    kit.schemata = Confined::try_from(schemata.into_iter().collect::<std::collections::BTreeSet<_>>()).unwrap();
    kit.ifaces = Confined::try_from(ifaces.into_iter().collect::<std::collections::BTreeSet<_>>()).unwrap();
    kit.iimpls = Confined::try_from(iimpls.into_iter().collect::<std::collections::BTreeSet<_>>()).unwrap();
    if bits & 4 == 4 {
        let refs = kit
            .schemata
            .iter()
            .map(|s| (ContentRef::Schema(s.schema_id()), ContentId::Schema(s.schema_id())))
            .chain(kit.ifaces.iter().map(|s| (ContentRef::Iface(s.iface_id()), ContentId::Iface(s.iface_id()))))
            .chain(kit.iimpls.iter().map(|s| (ContentRef::IfaceImpl(s.impl_id()), ContentId::IfaceImpl(s.impl_id()))))
            .collect::<Vec<_>>();
        for (k, (r, id)) in refs.into_iter().enumerate() {
            let x = mix(n, 100 + k as u64);
            if x & 1 == 1 {
                kit.supplements.push(odd_supplement(r, x >> 4)).expect("few supplements");
            }
            if x & 2 == 2 {
                kit.signatures.insert(id, odd_sigs(x >> 8)).expect("few signatures");
            }
        }
    }
}

fn dress<const T: bool>(c: &mut Consignment<T>, n: u64) {
    let bits = mix(n, 1);
    if bits & 1 == 1 {
        for k in 0..1 + (bits >> 40) % 3 {
            let data = vec![k as u8; (mix(n, 20 + k) % 300) as usize];
            c.attachments.insert(attach_id(mix(n, 30 + k) as u8), Confined::try_from(data).unwrap()).expect("few attachments");
        }
    }
    if bits & 2 == 2 {
        dress_schema(&mut c.schema, mix(n, 2));
        let list = c.ifaces.iter().map(|(i, ii)| {
            let (mut i, mut ii) = (i.clone(), ii.clone());
            i.developer = odd_identity(mix(n, 3));
            ii.developer = odd_identity(mix(n, 4));
            (i, ii)
        });
        c.ifaces = Confined::try_from(list.collect::<std::collections::BTreeMap<_, _>>()).unwrap();
    }
    if bits & 4 == 4 {
        let id = c.contract_id();
        for (k, (r, cid)) in [(ContentRef::Genesis(id), ContentId::Genesis(id)), (ContentRef::Schema(c.schema.schema_id()), ContentId::Schema(c.schema.schema_id()))].into_iter().enumerate() {
            let s = odd_supplement(r, mix(n, 40 + k as u64));
            c.signatures.insert(ContentId::Suppl(s.suppl_id()), odd_sigs(mix(n, 50 + k as u64))).expect("few signatures");
            let _ = c.supplements.push(s);
            c.signatures.insert(cid, odd_sigs(mix(n, 60 + k as u64))).expect("few signatures");
        }
    }
    if bits & 8 == 8 {
        let mut e = Extension::strict_dumb();
        e.contract_id = c.contract_id();
        for k in 0..1 + (bits >> 30) % 3 {
            e.nonce = mix(n, 70 + k);
            c.extensions.push(e.clone()).expect("few extensions");
        }
    }
    if bits & 16 == 16 {
        for k in 0..1 + (bits >> 20) % 4 {
            let b = [mix(n, 80 + k) as u8; 32];
            c.terminals.insert(BundleId::from(b), XChain::with(Layer1::Bitcoin, SecretSeal::from(b))).expect("few terminals");
        }
    }
    if bits & 96 == 96 {
        c.ifaces = none!();
    }
    if bits & 384 == 384 {
        c.bundles = none!();
    }
    if bits & 1536 == 1536 {
        c.scripts = none!();
        c.types = none!();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Boxed {
    pub kind: u8,
    pub pick: u8,
    pub dress: u64,
    pub seed: u64,
    pub edits: Vec<ByteEdit>,
    pub texts: Vec<Edit>,
    pub liquid: bool,
    pub testnet: bool,
    pub steps: Vec<Step>,
}

pub fn boxed(x: Weights, max: usize) -> impl Strategy<Value = Boxed> {
    (0u8..10, any::<u8>(), prop_oneof![1 => Just(0u64), 3 => any::<u64>()], any::<u64>(), vec(byte_edit(), 1..10), vec(edit(), 1..6), busy(x, max)).prop_map(
        |(kind, pick, dress, seed, edits, texts, h)| Boxed { kind, pick, dress, seed, edits, texts, liquid: h.liquid, testnet: h.testnet, steps: h.steps },
    )
}

/// The container which is described by the case.
pub fn item(x: &Boxed, cov: &mut Cov) -> Res<Item> {
    let env = &envs()[x.pick as usize % envs().len()].0;
    let plain = |contract| {
        let mut kit = kit_part(env, contract, x.seed % 10);
        if x.dress != 0 {
            dress_kit(&mut kit, x.dress);
        }
        Item::Kit(kit)
    };
    if x.kind < 2 {
        return Ok(plain(Some(ContractId::from([x.pick; 32]))));
    }
    let h = History { liquid: x.liquid, testnet: x.testnet, steps: x.steps.clone() };
    let world = run_history(&h, Flags::default(), cov, |_, _| Ok(()))?;
    let sent = |transfer| world.sent.iter().filter(|s| s.0 == transfer).map(|s| s.1.clone()).collect::<Vec<_>>();
    let at = |len| x.pick as usize % len;
    match x.kind {
        2..=3 => {
            let list = sent(false);
            if !list.is_empty() {
                let mut c = from_bytes::<Contract>(list[at(list.len())].clone()).map_err(|e| Fail::new(format!("contract is not readable: {e}")))?;
                if x.dress != 0 {
                    dress(&mut c, x.dress);
                }
                return Ok(Item::Contract(c));
            }
        }
        4..=7 => {
            let list = sent(true);
            if !list.is_empty() {
                let mut c = from_bytes::<Transfer>(list[at(list.len())].clone()).map_err(|e| Fail::new(format!("transfer is not readable: {e}")))?;
                if x.dress != 0 {
                    let mut list = c.bundles.iter().cloned().collect::<Vec<_>>();
                    for (n, wb) in list.iter_mut().enumerate() {
                        if mix(x.dress, 200 + n as u64) & 1 == 1 {
                            wb.pub_witness = world.chain.txs[&wb.witness_id()].0.clone().map(PubWitness::with);
                        }
                    }
                    put_bundles(&mut c, list);
                    dress(&mut c, x.dress);
                }
                return Ok(Item::Transfer(c));
            }
        }
        8 if !world.batches.is_empty() => return Ok(Item::Batch(world.batches[at(world.batches.len())].clone())),
        _ if !world.fascias.is_empty() => return Ok(Item::Fascia(world.fascias[at(world.fascias.len())].clone())),
        _ => {}
    }
    Ok(plain(None))
}

// ---------------------------------------------------------------------------
// C05: round trips

fn bytes_trip<T: StrictSerialize + StrictDeserialize + PartialEq + Debug>(v: &T, name: &str) -> Res<Vec<u8>> {
    let data = to_bytes(v);
    let other = total("reading", || from_bytes::<T>(data.clone()))?.map_err(|e| Fail::new(format!("bytes of {name} are not read: {e}")))?;
    ensure!(other == *v, "{name} differs when read from bytes");
    ensure!(to_bytes(&other) == data, "{name} read from bytes has another binary form");
    Ok(data)
}

fn json_trip<T: strict_encoding::StrictEncode + PartialEq + Debug + Serialize + DeserializeOwned>(v: &T, name: &str) -> Res {
    let text = total("writing JSON", || serde_json::to_string(v))?.map_err(|e| Fail::new(format!("{name} is not written as JSON: {e}")))?;
    let other = total("reading JSON", || serde_json::from_str::<T>(&text))?.map_err(|e| Fail::new(format!("JSON of {name} is not read: {e}\n{text}")))?;
    ensure!(other == *v, "{name} differs when read from JSON");
    ensure!(strict(&other) == strict(v), "{name} read from JSON has another binary form");
    Ok(())
}

/// Which of containers kinds accept the file.
fn as_file(data: &[u8]) -> Vec<&'static str> {
    let mut v = vec![];
    if Kit::load(data).is_ok() {
        v.push("kit")
    }
    if Contract::load(data).is_ok() {
        v.push("contract")
    }
    if Transfer::load(data).is_ok() {
        v.push("transfer")
    }
    v
}

fn as_text(text: &str) -> Vec<&'static str> {
    let mut v = vec![];
    for (name, a, b) in [
        ("kit", Kit::from_str(text).is_ok(), Kit::from_ascii_armored_str(text).is_ok()),
        ("contract", Contract::from_str(text).is_ok(), Contract::from_ascii_armored_str(text).is_ok()),
        ("transfer", Transfer::from_str(text).is_ok(), Transfer::from_ascii_armored_str(text).is_ok()),
    ] {
        if a || b {
            v.push(name)
        }
    }
    v
}

fn as_armored(path: &std::path::Path) -> Vec<&'static str> {
    let mut v = vec![];
    if Kit::load_armored(path).is_ok() {
        v.push("kit")
    }
    if Contract::load_armored(path).is_ok() {
        v.push("contract")
    }
    if Transfer::load_armored(path).is_ok() {
        v.push("transfer")
    }
    v
}

fn file_trip<T>(v: &T, name: &'static str, universal: UniversalFile) -> Res
where
    T: FileContent + AsciiArmor + PartialEq + Debug + FromStr,
    <T as FromStr>::Err: std::fmt::Display,
    <T as StrictArmor>::Id: PartialEq,
{
    // binary
    let mut data = vec![];
    v.save(&mut data).map_err(|e| Fail::new(format!("{name} is not saved: {e}")))?;
    let other = total("loading", || T::load(&data[..]))?.map_err(|e| Fail::new(format!("saved {name} is not loaded: {e}")))?;
    ensure!(other == *v, "{name} differs when loaded");
    ensure_eq!(to_bytes(&other), to_bytes(v), "binary form of loaded {name}");
    ensure!(other.armor_id() == v.armor_id(), "{name} has another id when loaded");
    ensure_eq!(as_file(&data), vec![name], "kinds accepting a file with {name}");
    // any kind of file
    let mut same = vec![];
    universal.save(&mut same).map_err(|e| Fail::new(format!("{name} is not saved: {e}")))?;
    ensure_eq!(same, data, "file with {name}");
    let u = total("loading", || UniversalFile::load(&data[..]))?.map_err(|e| Fail::new(format!("saved {name} is not loaded as a universal file: {e}")))?;
    let kind = match u {
        UniversalFile::Kit(_) => "kit",
        UniversalFile::Contract(_) => "contract",
        UniversalFile::Transfer(_) => "transfer",
    };
    ensure_eq!(kind, name, "kind of the universal file");
    let mut same = vec![];
    u.save(&mut same).map_err(|e| Fail::new(format!("{name} is not saved: {e}")))?;
    ensure_eq!(same, data, "universal file with {name}");
    // armored
    let text = v.to_ascii_armored_string();
    ensure_eq!(u.to_string(), text, "text of the universal file with {name}");
    let other = total("parsing", || T::from_str(&text))?.map_err(|e| Fail::new(format!("text of {name} is not parsed: {e}\n{}", &text[..text.len().min(3000)])))?;
    ensure!(other == *v, "{name} differs when parsed");
    ensure_eq!(to_bytes(&other), to_bytes(v), "binary form of parsed {name}");
    ensure!(other.armor_id() == v.armor_id(), "{name} has another id when parsed");
    ensure_eq!(other.to_ascii_armored_string(), text, "text of parsed {name}");
    ensure_eq!(as_text(&text), vec![name], "kinds accepting a text of {name}");
    // files
    let dir = Scratch::new();
    let (a, b) = (dir.0.join("a"), dir.0.join("b"));
    v.save_file(&a).map_err(|e| Fail::new(format!("{name} is not saved: {e}")))?;
    v.save_armored(&b).map_err(|e| Fail::new(format!("{name} is not saved: {e}")))?;
    ensure_eq!(std::fs::read(&a).unwrap(), data, "file with {name}");
    ensure_eq!(std::fs::read_to_string(&b).unwrap(), text, "armored file with {name}");
    for (what, res) in [("file", T::load_file(&a)), ("armored file", T::load_armored(&b))] {
        let other = res.map_err(|e| Fail::new(format!("{what} with {name} is not loaded: {e}")))?;
        ensure!(other == *v, "{name} differs when loaded from {what}");
    }
    ensure_eq!(as_armored(&b), vec![name], "kinds accepting an armored file with {name}");
    // over a longer file
    let mut long = data.clone();
    long.extend([7; 33]);
    std::fs::write(&a, long).expect("scratch file");
    universal.save_file(&a).map_err(|e| Fail::new(format!("{name} is not saved: {e}")))?;
    ensure_eq!(std::fs::read(&a).unwrap(), data, "rewritten file with {name}");
    let u = UniversalFile::load_file(&a).map_err(|e| Fail::new(format!("file with {name} is not loaded: {e}")))?;
    let mut same = vec![];
    u.save(&mut same).map_err(|e| Fail::new(format!("{name} is not saved: {e}")))?;
    ensure_eq!(same, data, "universal file with {name}");
    Ok(())
}

fn trips(x: &Boxed, cov: &mut Cov) -> Res {
    let item = item(x, cov)?;
    let name = item.name();
    cov.class(name);
    let data = match &item {
        Item::Kit(v) => {
            for x in &v.ifaces {
                json_trip(x, "interface")?;
            }
            for x in &v.iimpls {
                json_trip(x, "implementation")?;
            }
            for x in &v.supplements {
                json_trip(x, "supplement")?;
            }
            file_trip(v, name, v.clone().into())?;
            bytes_trip(v, name)?
        }
        Item::Contract(v) => {
            file_trip(v, name, v.clone().into())?;
            bytes_trip(v, name)?
        }
        Item::Transfer(v) => {
            file_trip(v, name, v.clone().into())?;
            bytes_trip(v, name)?
        }
        Item::Batch(v) => bytes_trip(v, name)?,
        Item::Fascia(v) => bytes_trip(v, name)?,
    };
    cov.nontrivial_if(data.len() > 1000);
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("containers of more than a thousand bytes");
    let x = Weights { deliver: 6, split: 5, send: 6, share: 3, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };
    ctx.check("trips", 1500, 40000, || boxed(x, 8), trips);
}

// ---------------------------------------------------------------------------
// C06: damage

fn reread<T: StrictSerialize + StrictDeserialize>(data: &[u8]) -> Res<Option<Vec<u8>>> {
    let res = frugal("reading altered bytes", || from_bytes::<T>(data.to_vec()))?;
    res.ok().map(|v| total("writing", || to_bytes(&v))).transpose()
}

fn reload<T: FileContent>(data: &[u8]) -> Res<Option<Vec<u8>>> {
    let res = frugal("loading an altered file", || T::load(data))?;
    res.ok()
        .map(|v| {
            total("saving", || {
                let mut out = vec![];
                v.save(&mut out).expect("memory");
                out
            })
        })
        .transpose()
}

fn reload_any(data: &[u8]) -> Res<Option<Vec<u8>>> {
    let res = frugal("loading an altered file", || UniversalFile::load(data))?;
    res.ok()
        .map(|v| {
            total("saving", || {
                let mut out = vec![];
                v.save(&mut out).expect("memory");
                out
            })
        })
        .transpose()
}

type Reader = fn(&[u8]) -> Res<Option<Vec<u8>>>;

fn damage(data: &[u8], x: &Boxed, what: &str, magic: usize, readers: &[Reader], cov: &mut Cov) -> Res {
    let mut flaw = None;
    let mut check = |n: usize, other: &[u8], refuse: bool, how: &str| -> Res {
        if other == data {
            return Ok(());
        }
        match readers[n](other) {
            Err(f) if is_known_flaw(&f) => flaw = Some(f),
            Err(f) => return Err(f),
            Ok(None) => {}
            Ok(Some(_)) if refuse => fail!("{what} {how} is read"),
            Ok(Some(again)) => {
                cov.class("readable-when-altered");
                ensure!(again == other, "{what} {how} is not read as it is");
            }
        }
        Ok(())
    };
    for n in 0..readers.len() {
        let mut cuts = bset![0, 1, data.len() - 1, data.len() / 2];
        for k in 0..12 {
            cuts.insert((mix(x.seed, k) % data.len() as u64) as usize);
        }
        for cut in cuts {
            check(n, &data[..cut], true, &format!("cut to {cut} of {} bytes", data.len()))?;
        }
        for tail in [vec![0u8], vec![x.seed as u8], vec![x.seed as u8; 40], data.to_vec()] {
            check(n, &[data, &tail].concat(), true, "with more data")?;
        }
        for e in 0..x.edits.len() {
            let other = apply_byte_edits(data, &x.edits[e..e + 1]);
            let refuse = other.len() < magic || other[..magic] != data[..magic];
            check(n, &other, refuse, &format!("altered by {:?}", x.edits[e]))?;
        }
        check(n, &apply_byte_edits(data, &x.edits), false, "altered in many places")?;
        for k in 0..magic {
            let mut other = data.to_vec();
            other[k] ^= 1 << (mix(x.seed, 50 + k as u64) % 8);
            check(n, &other, true, "with another magic number")?;
        }
        if magic > 0 {
            for m in [*b"KIT", *b"CON", *b"TFR", *b"RGB"] {
                let mut other = data.to_vec();
                other[4..7].copy_from_slice(&m);
                check(n, &other, true, "with a magic number of another kind")?;
            }
        }
    }
    flaw.map(Err).unwrap_or(Ok(()))
}

fn armor_damage<T>(v: &T, x: &Boxed, name: &str, cov: &mut Cov) -> Res
where
    T: FileContent + AsciiArmor + PartialEq + Debug + FromStr,
{
    let text = v.to_ascii_armored_string();
    let flaw = std::cell::RefCell::new(None);
    let read = |other: &str| -> Res<bool> {
        let res = match frugal("parsing altered text", || T::from_str(other)) {
            Err(f) if is_known_flaw(&f) => {
                *flaw.borrow_mut() = Some(f);
                return Ok(false);
            }
            res => res?,
        };
        let same = frugal("parsing altered text", || T::from_ascii_armored_str(other))?;
        match (res, same) {
            (Ok(a), Ok(b)) => {
                ensure!(a == *v && b == *v && to_bytes(&a) == to_bytes(v), "altered text of {name} is read as another {name}");
                Ok(true)
            }
            (Err(_), Err(_)) => Ok(false),
            _ => fail!("altered text of {name} is read in one way and refused in another"),
        }
    };
    ensure!(read(&text)?, "text of {name} is not read");
    let lines = text.lines().map(str::to_owned).collect::<Vec<_>>();
    let body = lines.iter().position(|l| l.is_empty()).expect("headers") + 1;
    let end = lines.iter().rposition(|l| l.starts_with("-----END")).expect("end line");
    let line_at = |prefix: &str| lines.iter().position(|l| l.starts_with(prefix)).ok_or_else(|| Fail::new(format!("no {prefix} header in a text of {name}")));
    let join = |lines: &[String]| lines.iter().map(|l| format!("{l}\n")).collect::<String>();
    let flip = |s: &mut String, at: usize, to: u8| {
        let mut b = s.clone().into_bytes();
        b[at] = to;
        *s = String::from_utf8(b).unwrap();
    };
    // body
    for k in 0..8u64 {
        let mut other = lines.clone();
        let no = body + (mix(x.seed, k) % (end - body) as u64) as usize;
        if other[no].is_empty() {
            continue;
        }
        let at = (mix(x.seed, 10 + k) % other[no].len() as u64) as usize;
        let old = other[no].as_bytes()[at];
        let to = lines[body].as_bytes()[(mix(x.seed, 20 + k) % lines[body].len() as u64) as usize];
        match mix(x.seed, 30 + k) % 4 {
            0 => {
                other[no].remove(at);
            }
            1 => other[no].insert(at, to as char),
            2 if no + 1 < end => {
                other.remove(no);
            }
            // the last symbols may stand for the same data
            _ if to != old && (no + 2 < end || at + 5 < other[no].len()) => flip(&mut other[no], at, to),
            _ => continue,
        }
        let other = join(&other);
        if other.split_whitespace().collect::<String>() != text.split_whitespace().collect::<String>() {
            ensure!(!read(&other)?, "text of {name} with an altered body is read");
        }
    }
    // checksum
    let no = line_at("Check-SHA256:")?;
    let mut other = lines.clone();
    let start = lines[no].len() - 64;
    let at = start + (mix(x.seed, 40) % 64) as usize;
    let old = lines[no].as_bytes()[at];
    let to = b"0123456789abcdef"[(mix(x.seed, 41) % 16) as usize];
    if old != to {
        flip(&mut other[no], at, to);
        ensure!(!read(&join(&other))?, "text of {name} with an altered checksum is read");
    }
    // identifier
    let no = line_at("Id:")?;
    let mut other = lines.clone();
    let len = lines[no].find('#').unwrap_or(lines[no].len());
    let at = 4 + (mix(x.seed, 42) % (len - 4) as u64) as usize;
    let to = b"ABCDEFGHXYZabcdefghxyz0123456789~_"[(mix(x.seed, 43) % 34) as usize];
    if to != lines[no].as_bytes()[at] {
        flip(&mut other[no], at, to);
        ensure!(!read(&join(&other))?, "text of {name} with an altered identifier is read: {}", other[no]);
    }
    let mut other = lines.clone();
    other.remove(no);
    ensure!(!read(&join(&other))?, "text of {name} without an identifier is read");
    // anything
    for n in 0..x.texts.len() {
        let other = apply_edits(&text, &x.texts[n..n + 1]);
        cov.class_if(read(&other)? && other != text, "text-readable-when-altered");
    }
    // cuts
    for k in 0..6 {
        let cut = (mix(x.seed, 60 + k) % text.len() as u64) as usize;
        let read = read(&text[..cut])?;
        ensure!(!read || text[cut..].trim().len() <= "-----END RGB CONSIGNMENT-----".len(), "text of {name} cut to {cut} of {} characters is read", text.len());
    }
    flaw.take().map(Err).unwrap_or(Ok(()))
}

fn damages(x: &Boxed, cov: &mut Cov) -> Res {
    // known flaws do not hide others
    let mut flaw = None;
    let mut keep = |res: Res| -> Res {
        match res {
            Err(f) if is_known_flaw(&f) => {
                flaw = Some(f);
                Ok(())
            }
            res => res,
        }
    };
    let item = item(x, cov)?;
    let name = item.name();
    cov.class(name);
    fn image(v: &impl FileContent) -> Vec<u8> {
        let mut out = vec![];
        v.save(&mut out).expect("memory");
        out
    }
    let data = match &item {
        Item::Kit(v) => {
            keep(armor_damage(v, x, name, cov))?;
            keep(damage(&image(v), x, "file with kit", 7, &[reload::<Kit>, reload_any], cov))?;
            to_bytes(v)
        }
        Item::Contract(v) => {
            keep(armor_damage(v, x, name, cov))?;
            keep(damage(&image(v), x, "file with contract", 7, &[reload::<Contract>, reload_any], cov))?;
            to_bytes(v)
        }
        Item::Transfer(v) => {
            keep(armor_damage(v, x, name, cov))?;
            keep(damage(&image(v), x, "file with transfer", 7, &[reload::<Transfer>, reload_any], cov))?;
            to_bytes(v)
        }
        Item::Batch(v) => to_bytes(v),
        Item::Fascia(v) => to_bytes(v),
    };
    cov.nontrivial_if(data.len() > 1000);
    let reader: Reader = match &item {
        Item::Kit(_) => reread::<Kit>,
        Item::Contract(_) => reread::<Contract>,
        Item::Transfer(_) => reread::<Transfer>,
        Item::Batch(_) => reread::<Batch>,
        Item::Fascia(_) => reread::<Fascia>,
    };
    keep(damage(&data, x, &format!("bytes of {name}"), 0, &[reader], cov))?;
    flaw.map(Err).unwrap_or(Ok(()))
}

/// A text of a kit with a group of symbols which stands for too big number.
fn broken_text() -> Res {
    let text = envs()[0].0.kit().to_ascii_armored_string();
    let (head, body) = text.split_once("\n\n").expect("headers");
    let res = frugal("parsing altered text", || Kit::from_str(&format!("{head}\n\n~~~~~{}", &body[5..])).map(drop))?;
    ensure!(res.is_err(), "altered text is read");
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    ctx.probe("claimed-length", claimed_length);
    ctx.probe("concealed-amount", concealed_amount);
    ctx.probe("text-group", broken_text);
    ctx.rule("containers of more than a thousand bytes");
    let x = Weights { deliver: 6, split: 5, send: 6, share: 3, sync: 0, again: 0, replace: 0, drop: 0, ..EVEN };
    ctx.check("damage", 1200, 40000, || boxed(x, 8), damages);
}
