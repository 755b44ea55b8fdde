//! C04: standard asset data.

use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::OnceLock;

use amplify::confinement::{Confined, SmallBlob, SmallOrdSet, U24};
use amplify::{ByteArray, Bytes32};
use bp::{Outpoint, Txid};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use rgbinvoice::{Allocation, Amount, OwnedFraction};
use rgbstd::stl::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::{SemId, StrictVal, TypeSystem};

use crate::frame::*;
use crate::gen::*;
use crate::text::prec;
use crate::{ensure, ensure_eq, fail};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Media {
    ty: String,
    sub: Option<String>,
    charset: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Amount(u64),
    Allocation(u32, u64),
    Asset { ticker: String, name: String, details: Option<String>, precision: u8 },
    Contract { article: Option<String>, name: String, details: Option<String>, precision: u8 },
    Terms { text: String, media: Option<(Media, [u8; 32])> },
    Media(Media),
    Reserves([u8; 32], u32, Vec<u8>),
    Burn(Vec<([u8; 32], u32, Vec<u8>)>),
    Issue(Vec<([u8; 32], u32, Vec<u8>)>),
}

fn mname() -> BoxedStrategy<String> {
    prop_oneof![4 => "[a-z][-!#$&+.0-9^_a-z]{0,20}", 1 => "[a-z][-!#$&+.0-9^_a-z]{60,63}"].boxed()
}
fn media() -> BoxedStrategy<Media> {
    (mname(), option::of(mname()), option::of(mname())).prop_map(|(ty, sub, charset)| Media { ty, sub, charset }).boxed()
}
fn name() -> BoxedStrategy<String> { prop_oneof![4 => "[ -~]{1,40}", 1 => "[ -~]{40}"].boxed() }
fn details() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[ -~]{1,60}",
        1 => "[ -~]{255}",
        2 => any::<String>().prop_map(|s| {
            let mut s: String = if s.is_empty() { "é".into() } else { s };
            while s.len() > 255 { s.pop(); }
            s
        }),
    ]
    .boxed()
}
fn por() -> BoxedStrategy<([u8; 32], u32, Vec<u8>)> { (b32(), any::<u32>(), vec(any::<u8>(), 0..40)).boxed() }

fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        1 => u64b().prop_map(Val::Amount),
        1 => (any::<u32>(), u64b()).prop_map(|(a, b)| Val::Allocation(a, b)),
        3 => ("[A-Za-z][A-Za-z0-9]{0,7}", name(), option::of(details()), 0u8..19)
            .prop_map(|(ticker, name, details, precision)| Val::Asset { ticker, name, details, precision }),
        3 => (option::of("[A-Za-z][A-Za-z0-9]{0,31}"), name(), option::of(details()), 0u8..19)
            .prop_map(|(article, name, details, precision)| Val::Contract { article, name, details, precision }),
        2 => (prop_oneof![any::<String>(), "[ -~\n]{0,200}"], option::of((media(), b32()))).prop_map(|(text, media)| Val::Terms { text, media }),
        2 => media().prop_map(Val::Media),
        2 => por().prop_map(|(a, b, c)| Val::Reserves(a, b, c)),
        1 => vec(por(), 0..4).prop_map(Val::Burn),
        1 => vec(por(), 0..4).prop_map(Val::Issue),
    ]
    .boxed()
}

fn sys() -> &'static (StandardTypes, TypeSystem) {
    static S: OnceLock<(StandardTypes, TypeSystem)> = OnceLock::new();
    S.get_or_init(|| {
        let t = StandardTypes::new();
        let s = t.type_system();
        (t, s)
    })
}

fn ser<T: StrictSerialize>(x: &T) -> Vec<u8> {
    x.to_strict_serialized::<U24>().expect("value is small").release()
}

/// The checks common to all values of a type.
fn roundtrip<T>(x: &T, ty: &'static str, edits: &[ByteEdit], from_val: Option<fn(&StrictVal) -> T>, cov: &mut Cov) -> Res
where T: StrictSerialize + StrictDeserialize + Serialize + DeserializeOwned + PartialEq + Debug {
    cov.class(ty);
    let bytes = ser(x);
    let back = match T::from_strict_serialized::<U24>(Confined::from_checked(bytes.clone())) {
        Ok(y) => y,
        Err(e) => fail!("{ty}: encoded value {x:?} does not decode: {e}"),
    };
    ensure_eq!(*x, back, "{ty}: decoded value");
    ensure_eq!(bytes, ser(&back), "{ty}: encoding of the decoded value");
    // the declared type library describes the same encoding
    let (types, sys) = sys();
    let id: SemId = types.get(ty);
    let typed = match sys.strict_deserialize_type(id, &bytes) {
        Ok(t) => t,
        Err(e) => fail!("{ty}: value {x:?} is not valid for its declared type: {e}"),
    };
    let again = match sys.strict_serialize_value::<U24>(&typed) {
        Ok(b) => b.to_vec(),
        Err(e) => fail!("{ty}: typed value of {x:?} does not serialize: {e}"),
    };
    ensure_eq!(bytes, again, "{ty}: encoding through the type system");
    if let Some(from_val) = from_val {
        let v = typed.clone().unbox();
        let y = total(&format!("{ty}: reading {v} from typed data"), || from_val(&v))?;
        ensure_eq!(*x, y, "{ty}: value read from typed data");
        ensure_eq!(bytes, ser(&y), "{ty}: encoding of the value read from typed data");
    }
    // JSON
    let js = serde_json::to_string(x).map_err(|e| Fail::new(format!("{ty}: no JSON for {x:?}: {e}")))?;
    match serde_json::from_str::<T>(&js) {
        Ok(y) => ensure_eq!(bytes, ser(&y), "{ty}: value read from JSON {js}"),
        Err(e) => fail!("{ty}: JSON {js} does not parse: {e}"),
    }
    // damaged data: the type and its declaration agree on what is valid
    if !edits.is_empty() {
        let bad = apply_byte_edits(&bytes, edits);
        let a = total(&format!("{ty}: decoding of {bad:?}"), || T::from_strict_serialized::<U24>(Confined::from_checked(bad.clone())))?;
        let b = total(&format!("{ty}: typed decoding of {bad:?}"), || sys.strict_deserialize_type(id, &bad))?;
        match (a, b) {
            (Ok(y), b) => {
                ensure_eq!(bad, ser(&y), "{ty}: two encodings of one value");
                cov.class_if(bad != bytes, "damaged data accepted");
                match b {
                    Ok(t) => {
                        if let Some(from_val) = from_val {
                            let v = t.clone().unbox();
                            let z = total(&format!("{ty}: reading {v} from typed data"), || from_val(&v))?;
                            ensure_eq!(y, z, "{ty}: value read from typed data");
                        }
                    }
                    Err(e) => fail!("{ty}: {bad:?} is a value but not valid for the declared type: {e}"),
                }
            }
            (Err(_), _) => cov.class("damaged data refused"),
        }
    }
    Ok(())
}

fn rmedia(m: &Media) -> Res<MediaType> {
    let n = |s: &String| MediaRegName::from_str(s).map_err(|e| Fail::new(format!("valid media name '{s}' refused: {e}")));
    Ok(MediaType { ty: n(&m.ty)?, subtype: m.sub.as_ref().map(n).transpose()?, charset: m.charset.as_ref().map(n).transpose()? })
}
fn rpor(p: &([u8; 32], u32, Vec<u8>)) -> ProofOfReserves {
    ProofOfReserves::new(Outpoint::new(Txid::from_byte_array(p.0), p.1), SmallBlob::from_checked(p.2.clone()))
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn lawful<T: Ord + Hash + Debug>(a: &T, b: &T, c: &T) -> Res {
    use std::cmp::Ordering::*;
    for (x, y) in [(a, b), (b, c), (a, c), (b, a), (a, a)] {
        ensure_eq!(x == y, y == x, "equality of {x:?} and {y:?} is not symmetric");
        ensure_eq!(x == y, x.cmp(y) == Equal, "order and equality of {x:?} and {y:?} disagree");
        ensure_eq!(x.partial_cmp(y), Some(x.cmp(y)), "partial order of {x:?} and {y:?}");
        ensure_eq!(x.cmp(y), y.cmp(x).reverse(), "order of {x:?} and {y:?} is not antisymmetric");
        if x == y {
            ensure_eq!(hash(x), hash(y), "hashes of equal {x:?} and {y:?}");
        }
    }
    if a <= b && b <= c {
        ensure!(a <= c, "order of {a:?}, {b:?}, {c:?} is not transitive");
    }
    if a == b && b == c {
        ensure!(a == c, "equality of {a:?}, {b:?}, {c:?} is not transitive");
    }
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("Values of nine standard types are generated field by field including maximal lengths, absent options and multi-byte texts, with 0-2 byte edits of their encoding; strings for the text types are drawn around the allowed alphabets and lengths. Non-trivial: value with a present option or a non-default text (values), a string within two characters of the limits or containing a forbidden character (texts), tickers equal up to case (order).");
    ctx.check("values", 144000, 3600000, || (val(), vec(byte_edit(), 0..3)), |(v, edits): &(Val, Vec<ByteEdit>), cov| {
        let inv = |e: strict_encoding::InvalidRString| Fail::new(format!("valid text refused: {e} in {v:?}"));
        if !matches!(v, Val::Amount(_) | Val::Allocation(..)) {
            cov.nontrivial();
        }
        match v {
            Val::Amount(a) => roundtrip(&Amount::from(*a), "RGBContract.Amount", edits, Some(Amount::from_strict_val_unchecked), cov),
            Val::Allocation(i, f) => roundtrip(
                &Allocation::with(*i, *f),
                "RGBContract.Allocation",
                edits,
                Some(|v| Allocation::with(v.unwrap_tuple(0).unwrap_uint::<u32>(), OwnedFraction::from_strict_val_unchecked(v.unwrap_tuple(1)))),
                cov,
            ),
            Val::Asset { ticker, name, details, precision } => {
                let x = AssetSpec::with(ticker, name, prec(*precision), details.as_deref()).map_err(inv)?;
                ensure_eq!((x.ticker(), x.name(), x.details()), (ticker.as_str(), name.as_str(), details.as_deref()), "asset specification");
                ensure_eq!(x.precision, prec(*precision), "precision");
                roundtrip(&x, "RGBContract.AssetSpec", edits, Some(AssetSpec::from_strict_val_unchecked), cov)
            }
            Val::Contract { article, name, details, precision } => {
                let mut x = ContractSpec::with(article.as_deref().unwrap_or("A"), name, prec(*precision), details.as_deref()).map_err(inv)?;
                if article.is_none() {
                    x.article = None;
                }
                ensure_eq!((x.article(), x.name(), x.details()), (article.as_deref(), name.as_str(), details.as_deref()), "contract specification");
                ensure_eq!(x.precision, prec(*precision), "precision");
                roundtrip(&x, "RGBContract.ContractSpec", edits, Some(ContractSpec::from_strict_val_unchecked), cov)
            }
            Val::Terms { text, media } => {
                let text = RicardianContract::from_str(text).map_err(inv)?;
                let media = match media {
                    None => None,
                    Some((m, d)) => Some(Attachment { ty: rmedia(m)?, digest: Bytes32::from_byte_array(*d) }),
                };
                roundtrip(&ContractTerms { text, media }, "RGBContract.ContractTerms", edits, Some(ContractTerms::from_strict_val_unchecked), cov)
            }
            Val::Media(m) => {
                let x = rmedia(m)?;
                ensure_eq!(x.to_string(), format!("{}/{}", m.ty, m.sub.as_deref().unwrap_or("*")), "media type text");
                roundtrip(&x, "RGBContract.MediaType", edits, Some(MediaType::from_strict_val_unchecked), cov)
            }
            Val::Reserves(a, b, c) => {
                let x = rpor(&(*a, *b, c.clone()));
                roundtrip(&x, "RGBContract.ProofOfReserves", edits, Some(ProofOfReserves::from_strict_val_unchecked), cov)
            }
            Val::Burn(l) => {
                let set = SmallOrdSet::from_iter_checked(l.iter().map(rpor));
                roundtrip(&BurnMeta { burn_proofs: set }, "RGBContract.BurnMeta", edits, None, cov)
            }
            Val::Issue(l) => {
                let set = SmallOrdSet::from_iter_checked(l.iter().map(rpor));
                roundtrip(&IssueMeta { reserves: set }, "RGBContract.IssueMeta", edits, None, cov)
            }
        }
    });
    ctx.check(
        "texts",
        144000,
        3600000,
        || {
            prop_oneof![
                "[A-Za-z][A-Za-z0-9]{0,10}",
                "[A-Za-z0-9]{6,10}",
                "[A-Za-z][A-Za-z0-9]{28,34}",
                "[ -~]{37,43}",
                "[ -~]{252,257}",
                "[a-z][-!#$&+.0-9^_a-z]{0,12}",
                "[a-z][-!#$&+.0-9^_a-zA-Z/%*]{0,5}",
                "[a-z]{61,67}",
                "[é漢a]{60,130}",
                wild(),
                any::<String>(),
                Just(String::new()),
            ]
        },
        |s: &String, cov| {
            if s.is_empty() || s.len() > 6 || !s.bytes().all(|b| b.is_ascii_alphanumeric()) {
                cov.nontrivial();
            }
            let n = s.len();
            let first = s.chars().next();
            let alpha1 = first.map(|c| c.is_ascii_alphabetic()).unwrap_or(false);
            let alnum = s.chars().all(|c| c.is_ascii_alphanumeric());
            let printable = s.chars().all(|c| (' '..='~').contains(&c));
            let mime = s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || "!#$&+-.^_".contains(c));
            let mut control = false;
            macro_rules! accept {
                ($what:expr, $ty:ty, $expect:expr) => {{
                    let got = total($what, || <$ty>::from_str(s))?;
                    match (&got, $expect) {
                        (Ok(x), true) => {
                            let t: &str = x.as_ref();
                            ensure_eq!(t, s.as_str(), "{} text", $what);
                            cov.class(concat!("accepted ", stringify!($ty)));
                        }
                        (Err(_), false) => {}
                        (Ok(_), false) => fail!("{} accepts {s:?}", $what),
                        (Err(e), true) => fail!("{} refuses {s:?}: {e}", $what),
                    }
                    got.ok()
                }};
            }
            let t = accept!("ticker", Ticker, alpha1 && alnum && (1..=8).contains(&n));
            ensure_eq!(Ticker::try_from(s.clone()).is_ok(), t.is_some(), "ticker constructors disagree");
            let t = accept!("article", Article, alpha1 && alnum && (1..=32).contains(&n));
            ensure_eq!(Article::try_from(s.clone()).is_ok(), t.is_some(), "article constructors disagree");
            let name = Name::from_str(s);
            ensure_eq!(Name::try_from(s.clone()).is_ok(), name.is_ok(), "name constructors disagree");
            if s.is_ascii() && !printable && (1..=40).contains(&n) && name.is_ok() {
                control = true;
            } else {
                accept!("name", Name, printable && (1..=40).contains(&n));
            }
            let t = accept!("details", Details, (1..=255).contains(&n));
            ensure_eq!(Details::try_from(s.clone()).ok(), t, "details constructors disagree");
            accept!("terms", RicardianContract, n <= 0xFFFF);
            let t = accept!(
                "media name",
                MediaRegName,
                mime && first.map(|c| c.is_ascii_lowercase()).unwrap_or(false) && (1..=64).contains(&n)
            );
            ensure_eq!(MediaRegName::try_from(s.clone()).is_ok(), t.is_some(), "media name constructors disagree");
            if control {
                return Err(Fail::sig("name-accepts-control-characters", format!("name accepts {s:?}, which its declared type does not allow")));
            }
            Ok(())
        },
    );
    ctx.check(
        "order",
        96000,
        2400000,
        || {
            let t = || {
                prop_oneof![
                    "[abABcC]{1,3}",
                    "[A-Za-z][A-Za-z0-9]{0,7}",
                    ("[a-z]{1,4}", vec(any::<bool>(), 4)).prop_map(|(s, up)| s
                        .chars()
                        .zip(up)
                        .map(|(c, u)| if u { c.to_ascii_uppercase() } else { c })
                        .collect::<String>()),
                ]
            };
            (t(), t(), t())
        },
        |(a, b, c): &(String, String, String), cov| {
            let t = |s: &String| Ticker::from_str(s).unwrap();
            cov.class_if(a != b && t(a) == t(b), "equal up to case");
            if a.eq_ignore_ascii_case(b) || b.eq_ignore_ascii_case(c) || a[..1].eq_ignore_ascii_case(&b[..1]) {
                cov.nontrivial();
            }
            ensure_eq!(t(a) == t(b), a.to_uppercase() == b.to_uppercase(), "tickers {a} and {b}: case must not matter");
            lawful(&t(a), &t(b), &t(c))?;
            let n = |s: &String| Name::from_str(s).unwrap();
            lawful(&n(a), &n(b), &n(c))?;
            ensure_eq!(n(a) == n(b), a == b, "names");
            let n = |s: &String| Article::from_str(s).unwrap();
            lawful(&n(a), &n(b), &n(c))?;
            ensure_eq!(n(a) == n(b), a == b, "articles");
            let n = |s: &String| Details::from_str(s).unwrap();
            lawful(&n(a), &n(b), &n(c))
        },
    );
}
