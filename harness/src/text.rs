//! C01–C03: invoices, text parsers, amounts.

use std::fmt::{Debug, Display};
use std::str::FromStr;

use amplify::ByteArray;
use bp::seals::txout::CloseMethod;
use bp::{OutputPk, PubkeyHash, ScriptHash, WPubkeyHash, WScriptHash};
use invoice::AddressPayload;
use indexmap::IndexMap;
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use rgb::{AttachId, ContractId, SecretSeal};
use rgbinvoice::*;
use serde::{Deserialize, Serialize};
use strict_encoding::{FieldName, TypeName};

use crate::frame::*;
use crate::gen::*;
use crate::{ensure, ensure_eq, fail};

pub const NETS: [ChainNet; 6] = [
    ChainNet::BitcoinMainnet,
    ChainNet::BitcoinTestnet,
    ChainNet::BitcoinSignet,
    ChainNet::BitcoinRegtest,
    ChainNet::LiquidMainnet,
    ChainNet::LiquidTestnet,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum St {
    Void,
    Amount(u64),
    Data(u32, u64),
    Attach([u8; 32]),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ben {
    Blinded([u8; 32]),
    Vout { tapret: bool, kind: u8, payload: [u8; 32] },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tr {
    kind: u8,
    tls: bool,
    host: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inv {
    contract: Option<[u8; 32]>,
    iface: Option<String>,
    op: Option<String>,
    assignment: Option<String>,
    state: St,
    net: u8,
    ben: Ben,
    expiry: Option<i64>,
    transports: Vec<Tr>,
    query: Vec<(String, String)>,
}

fn iface_name() -> BoxedStrategy<String> {
    prop_oneof![4 => "[A-Z][A-Za-z0-9]{0,12}", 1 => Just("RGB20".to_owned()), 1 => "[A-Z][A-Za-z0-9]{60,99}"].boxed()
}

fn field_name() -> BoxedStrategy<String> { "[a-z_][a-zA-Z0-9_]{0,14}".boxed() }

fn st() -> BoxedStrategy<St> {
    prop_oneof![
        1 => Just(St::Void),
        4 => u64b().prop_map(St::Amount),
        2 => (prop_oneof![any::<u32>(), Just(0u32), Just(u32::MAX)], u64b()).prop_map(|(a, b)| St::Data(a, b)),
        1 => b32().prop_map(St::Attach),
    ]
    .boxed()
}

fn ben() -> BoxedStrategy<Ben> {
    prop_oneof![
        b32().prop_map(Ben::Blinded),
        (any::<bool>(), 1u8..6, b32()).prop_map(|(tapret, kind, payload)| Ben::Vout { tapret, kind, payload }),
    ]
    .boxed()
}

fn host() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z0-9.-]{1,20}(:[0-9]{1,5})?(/[a-z0-9/_-]{0,10})?",
        1 => "\\[[0-9a-f:]{2,12}\\]:[0-9]{1,5}/[a-z?=&%]{0,6}",
        2 => "[!-+\\--~]{1,16}",
        1 => "[é漢a-z%#&=/]{1,8}",
    ]
    .boxed()
}

fn tr() -> BoxedStrategy<Tr> {
    (0u8..4, any::<bool>(), host()).prop_map(|(kind, tls, host)| Tr { kind, tls, host }).boxed()
}

fn inv() -> BoxedStrategy<Inv> {
    (
        option::of(b32()),
        option::of(iface_name()),
        (option::weighted(0.3, field_name()), option::weighted(0.3, field_name())),
        st(),
        0u8..6,
        ben(),
        option::of(prop_oneof![any::<i64>(), Just(0), Just(i64::MIN), 1_600_000_000i64..1_900_000_000]),
        vec(tr(), 0..4),
        vec((wild(), wild()), 0..4),
    )
        .prop_map(|(contract, iface, (op, assignment), state, net, ben, expiry, transports, query)| Inv {
            iface: if contract.is_some() && iface.is_none() { Some("RGB20".into()) } else { iface },
            contract,
            op,
            assignment,
            state,
            net,
            ben,
            expiry,
            transports,
            query: query.into_iter().filter(|(k, _)| k != "expiry" && k != "endpoints").collect(),
        })
        .boxed()
}

pub fn xonly(payload: &[u8; 32]) -> OutputPk {
    let mut b = *payload;
    loop {
        if let Ok(pk) = OutputPk::from_byte_array(b) {
            return pk;
        }
        for x in b.iter_mut().rev() {
            *x = x.wrapping_add(1);
            if *x != 0 {
                break;
            }
        }
    }
}

fn beneficiary(b: &Ben, net: u8) -> XChainNet<Beneficiary> {
    let b = match b {
        Ben::Blinded(s) => Beneficiary::BlindedSeal(SecretSeal::from_byte_array(*s)),
        Ben::Vout { tapret, kind, payload } => {
            let p20 = |p: &[u8; 32]| -> [u8; 20] { p[..20].try_into().unwrap() };
            Beneficiary::WitnessVout(Pay2Vout {
                method: if *tapret { CloseMethod::TapretFirst } else { CloseMethod::OpretFirst },
                address: match kind {
                    1 => AddressPayload::Pkh(PubkeyHash::from_byte_array(p20(payload))),
                    2 => AddressPayload::Sh(ScriptHash::from_byte_array(p20(payload))),
                    3 => AddressPayload::Wpkh(WPubkeyHash::from_byte_array(p20(payload))),
                    4 => AddressPayload::Wsh(WScriptHash::from_byte_array(*payload)),
                    _ => AddressPayload::Tr(xonly(payload)),
                },
            })
        }
    };
    XChainNet::with(NETS[net as usize % 6], b)
}

fn transport(t: &Tr) -> RgbTransport {
    match t.kind {
        0 => RgbTransport::JsonRpc { tls: t.tls, host: t.host.clone() },
        1 => RgbTransport::RestHttp { tls: t.tls, host: t.host.clone() },
        2 => RgbTransport::WebSockets { tls: t.tls, host: t.host.clone() },
        _ => RgbTransport::Storm {},
    }
}

fn state(s: &St) -> InvoiceState {
    match s {
        St::Void => InvoiceState::Void,
        St::Amount(a) => InvoiceState::Amount(Amount::from(*a)),
        St::Data(i, f) => InvoiceState::Data(NonFungible::RGB21(Allocation::with(*i, *f))),
        St::Attach(id) => InvoiceState::Attach(AttachId::from(*id)),
    }
}

/// The invoice built without the builder (the type is non-exhaustive, so start from a finished one).
fn build(i: &Inv) -> RgbInvoice {
    let mut x = RgbInvoiceBuilder::new(beneficiary(&i.ben, i.net)).finish();
    x.contract = i.contract.map(ContractId::from);
    x.iface = i.iface.as_ref().map(|s| TypeName::try_from(s.clone()).unwrap());
    let name = |s: &String| FieldName::try_from(s.clone()).unwrap();
    x.operation = i.op.as_ref().map(name);
    x.assignment = i.assignment.as_ref().map(name);
    x.owned_state = state(&i.state);
    x.expiry = i.expiry;
    if !i.transports.is_empty() {
        x.transports = i.transports.iter().map(transport).collect();
    }
    x.unknown_query = i.query.iter().cloned().collect::<IndexMap<_, _>>();
    x
}

fn same_invoice(a: &RgbInvoice, b: &RgbInvoice, text: &str) -> Res {
    ensure_eq!(a.contract, b.contract, "contract differs after parsing {text}");
    ensure_eq!(a.iface, b.iface, "interface differs after parsing {text}");
    ensure_eq!(a.operation, b.operation, "operation differs after parsing {text}");
    ensure_eq!(a.assignment, b.assignment, "assignment differs after parsing {text}");
    ensure_eq!(a.owned_state, b.owned_state, "state differs after parsing {text}");
    ensure_eq!(a.beneficiary, b.beneficiary, "beneficiary differs after parsing {text}");
    ensure_eq!(a.chain_network(), b.chain_network(), "network differs after parsing {text}");
    ensure_eq!(a.expiry, b.expiry, "expiry differs after parsing {text}");
    ensure_eq!(a.transports, b.transports, "transports differ after parsing {text}");
    ensure_eq!(a.unknown_query, b.unknown_query, "query differs after parsing {text}");
    ensure_eq!(a, b, "invoice differs after parsing {text}");
    Ok(())
}

fn roundtrip_invoice(x: &RgbInvoice) -> Res {
    for text in [format!("{x}"), format!("{x:#}")] {
        let y = match total(&format!("parsing '{text}'"), || RgbInvoice::from_str(&text))? {
            Ok(y) => y,
            Err(e) => fail!("printed invoice '{text}' does not parse: {e}"),
        };
        same_invoice(x, &y, &text)?;
        ensure_eq!(y.to_string(), format!("{x}"), "second printing");
    }
    ensure_eq!(x.layer1(), x.chain_network().layer1(), "layer 1");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Contract([u8; 32]),
    Iface(String),
    Operation(String),
    Assignment(String),
    AmountRaw(u64),
    Amount(u64, u64, u8),
    Approx(u64, u8),
    AllocRaw(u32, u64),
    Alloc(u32, u64),
    Expiry(i64),
    TransportRaw(Tr),
    TransportStr(String),
    TransportsRaw(Vec<Tr>),
    TransportsStr(Vec<Tr>),
}

fn call() -> BoxedStrategy<Call> {
    prop_oneof![
        1 => b32().prop_map(Call::Contract),
        1 => iface_name().prop_map(Call::Iface),
        1 => field_name().prop_map(Call::Operation),
        1 => field_name().prop_map(Call::Assignment),
        1 => u64b().prop_map(Call::AmountRaw),
        3 => (u64b(), u64b(), 0u8..19).prop_map(|(a, b, p)| Call::Amount(a, b, p)),
        2 => (0u64..100000, 0u64..100000, 0u8..19).prop_map(|(a, b, p)| Call::Amount(a, b, p)),
        2 => (any::<u64>(), 0u8..19).prop_map(|(a, p)| Call::Approx(a, p)),
        1 => ((0f64..1e6).prop_map(f64::to_bits), 0u8..12).prop_map(|(a, p)| Call::Approx(a, p)),
        1 => (any::<u32>(), u64b()).prop_map(|(a, b)| Call::AllocRaw(a, b)),
        1 => (any::<u32>(), u64b()).prop_map(|(a, b)| Call::Alloc(a, b)),
        1 => any::<i64>().prop_map(Call::Expiry),
        1 => tr().prop_map(Call::TransportRaw),
        1 => prop_oneof![tr().prop_map(|t| transport(&t).to_string()), wild()].prop_map(Call::TransportStr),
        1 => vec(tr(), 0..3).prop_map(Call::TransportsRaw),
        1 => vec(tr(), 0..3).prop_map(Call::TransportsStr),
    ]
    .boxed()
}

pub fn prec(p: u8) -> Precision { Precision::try_from(p).expect("0..=18") }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    ctor: u8,
    contract: [u8; 32],
    net: u8,
    ben: Ben,
    calls: Vec<Call>,
}

fn builder_program(p: &Program, cov: &mut Cov) -> Res {
    let ben = beneficiary(&p.ben, p.net);
    let cid = ContractId::from(p.contract);
    let (mut b, mut m_contract, mut m_iface) = match p.ctor % 4 {
        0 => (RgbInvoiceBuilder::new(ben), None, None),
        1 => (RgbInvoiceBuilder::with(cid, ben), Some(cid), None),
        2 => (RgbInvoiceBuilder::rgb20(cid, ben), Some(cid), Some("RGB20".to_owned())),
        _ => (RgbInvoiceBuilder::rgb20_anything(ben), None, Some("RGB20".to_owned())),
    };
    let mut m_state = InvoiceState::Void;
    let (mut m_op, mut m_assign) = (None, None);
    let mut m_exp = None;
    let mut m_tr: Vec<RgbTransport> = vec![];
    for c in &p.calls {
        b = match c {
            Call::Contract(id) => {
                m_contract = Some(ContractId::from(*id));
                b.set_contract(ContractId::from(*id))
            }
            Call::Iface(n) => {
                m_iface = Some(n.clone());
                b.set_interface(TypeName::try_from(n.clone()).unwrap())
            }
            Call::Operation(n) => {
                m_op = Some(n.clone());
                b.set_operation(FieldName::try_from(n.clone()).unwrap())
            }
            Call::Assignment(n) => {
                m_assign = Some(n.clone());
                b.set_assignment(FieldName::try_from(n.clone()).unwrap())
            }
            Call::AmountRaw(a) => {
                m_state = InvoiceState::Amount(Amount::from(*a));
                b.set_amount_raw(*a)
            }
            Call::Amount(int, fract, pr) => {
                let mul = 10u128.pow(*pr as u32);
                let exact = *int as u128 * mul + *fract as u128;
                let ok = (*fract as u128) < mul && exact <= u64::MAX as u128;
                match (total("set_amount", || b.set_amount(*int, *fract, prec(*pr)))?, ok) {
                    (Ok(b), true) => {
                        cov.class("amount accepted");
                        m_state = InvoiceState::Amount(Amount::from(exact as u64));
                        b
                    }
                    (Err(b), false) => {
                        cov.class("amount refused");
                        b
                    }
                    (Ok(_), false) => fail!("set_amount({int}, {fract}, {pr}) accepted though not representable"),
                    (Err(_), true) => fail!("set_amount({int}, {fract}, {pr}) refused though representable"),
                }
            }
            Call::Approx(bits, pr) => {
                let v = f64::from_bits(*bits);
                let mul = 10u64.pow(*pr as u32) as f64;
                let target = v * mul;
                let before = b.clone().finish().owned_state;
                match total("set_amount_approx", || unsafe { b.set_amount_approx(v, prec(*pr)) })? {
                    Ok(b) => {
                        let InvoiceState::Amount(a) = b.clone().finish().owned_state else {
                            fail!("set_amount_approx({v}) left no amount")
                        };
                        ensure!(v > 0.0 && v.is_finite(), "set_amount_approx({v}) accepted");
                        let diff = (a.value() as f64 - target).abs();
                        ensure!(
                            diff <= 1.0 + target.abs() * 1e-9,
                            "set_amount_approx({v}, {pr}) gives {} instead of about {target}",
                            a.value()
                        );
                        cov.class("approx accepted");
                        m_state = InvoiceState::Amount(a);
                        b
                    }
                    Err(b) => {
                        ensure!(
                            !(v > 0.0) || target > u64::MAX as f64 * 0.99,
                            "set_amount_approx({v}, {pr}) refused though representable"
                        );
                        ensure_eq!(b.clone().finish().owned_state, before, "refused call changed the state");
                        b
                    }
                }
            }
            Call::AllocRaw(i, f) => {
                m_state = InvoiceState::Data(NonFungible::RGB21(Allocation::with(*i, *f)));
                b.set_allocation_raw(Allocation::with(*i, *f))
            }
            Call::Alloc(i, f) => {
                m_state = InvoiceState::Data(NonFungible::RGB21(Allocation::with(*i, *f)));
                match b.set_allocation(*i, *f) {
                    Ok(b) => b,
                    Err(_) => fail!("set_allocation({i}, {f}) refused"),
                }
            }
            Call::Expiry(e) => {
                m_exp = Some(*e);
                b.set_expiry_timestamp(*e)
            }
            Call::TransportRaw(t) => {
                m_tr.push(transport(t));
                b.add_transport_raw(transport(t))
            }
            Call::TransportStr(s) => match b.add_transport(s) {
                Ok(b) => {
                    // the accepted transport must be what the text says
                    let last = b.clone().finish().transports.last().cloned();
                    let Some(last) = last else { fail!("accepted transport '{s}' is absent") };
                    if !matches!(last, RgbTransport::Storm {}) {
                        ensure_eq!(last.to_string(), s.clone(), "transport text");
                    }
                    m_tr.push(last);
                    b
                }
                Err((b, _)) => {
                    let valid = ["rpc", "rpcs", "http", "https", "ws", "wss", "storm"]
                        .iter()
                        .any(|p| s.strip_prefix(&format!("{p}://")).map(|h| !h.is_empty()).unwrap_or(false));
                    ensure!(!valid, "valid transport '{s}' refused");
                    b
                }
            },
            Call::TransportsRaw(t) => {
                m_tr.extend(t.iter().map(transport));
                b.add_transports_raw(t.iter().map(transport))
            }
            Call::TransportsStr(t) => {
                let strs: Vec<String> = t.iter().map(|t| transport(t).to_string()).collect();
                m_tr.extend(t.iter().map(transport));
                match b.add_transports(strs.iter().map(String::as_str)) {
                    Ok(b) => b,
                    Err((_, e)) => fail!("valid transports {strs:?} refused: {e}"),
                }
            }
        };
    }
    let x = b.finish();
    ensure_eq!(x.contract, m_contract, "contract");
    ensure_eq!(x.iface.as_ref().map(|n| n.to_string()), m_iface, "interface");
    ensure_eq!(x.owned_state, m_state, "state");
    ensure_eq!(x.expiry, m_exp, "expiry");
    ensure_eq!(x.beneficiary, ben, "beneficiary");
    if m_tr.is_empty() {
        m_tr.push(RgbTransport::UnspecifiedMeans);
    }
    ensure_eq!(x.transports, m_tr, "transports");
    ensure_eq!(x.operation.as_ref().map(|n| n.to_string()), m_op, "operation");
    ensure_eq!(x.assignment.as_ref().map(|n| n.to_string()), m_assign, "assignment");
    ensure!(x.unknown_query.is_empty(), "unexpected fields");
    if p.calls.len() >= 3 {
        cov.nontrivial();
    }
    if x.contract.is_none() || x.iface.is_some() {
        cov.class("printable");
        // a comma separates transports in the text form, so such hosts are out of the text domain
        if x.transports.iter().all(|t| !t.to_string().contains(',')) {
            roundtrip_invoice(&x)?;
        }
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("Invoices are generated field by field (contract, interface, state, six networks, blinded seals and five address kinds, expiry, transports with awkward hosts, Unicode query pairs) or by random programs of builder calls; non-trivial: at least two optional fields present (fields) or three builder calls (programs); distinct by generated value.");
    ctx.check("text", 192000, 4800000, inv, |i: &Inv, cov| {
        let n = i.contract.is_some() as u8 +
            i.iface.is_some() as u8 +
            i.expiry.is_some() as u8 +
            (!i.transports.is_empty()) as u8 +
            (!i.query.is_empty()) as u8 +
            !matches!(i.state, St::Void) as u8;
        if n >= 2 {
            cov.nontrivial();
        }
        cov.class(format!("net {}", NETS[i.net as usize % 6]));
        cov.class(match i.state {
            St::Void => "void",
            St::Amount(_) => "amount",
            St::Data(..) => "data",
            St::Attach(_) => "attach",
        });
        cov.class_if(i.query.iter().any(|(k, v)| k.contains('%') || v.contains('%')), "percent in query");
        cov.class_if(i.op.is_some() && i.assignment.is_some(), "both names");
        cov.class_if(i.op.is_none() && i.assignment.is_some(), "assignment name only");
        cov.class_if(i.transports.len() > 1, "many transports");
        roundtrip_invoice(&build(i))
    });
    ctx.check(
        "builder",
        128000,
        3200000,
        || {
            (any::<u8>(), b32(), 0u8..6, ben(), vec(call(), 0..8))
                .prop_map(|(ctor, contract, net, ben, calls)| Program { ctor, contract, net, ben, calls })
        },
        builder_program,
    );
}

// ---------------------------------------------------------------------------------------------- C02

fn fixpoint<T: FromStr + Display + PartialEq + Debug>(what: &str, s: &str, hit: &mut Vec<String>) -> Res
where T::Err: Display {
    let x = match total(&format!("{what} parser on {s:?}"), || T::from_str(s))? {
        Ok(x) => x,
        Err(e) => {
            total(&format!("{what} error display"), || e.to_string())?;
            return Ok(());
        }
    };
    hit.push(what.to_owned());
    let t = total(&format!("{what} display of {x:?} read from {s:?}"), || x.to_string())?;
    match total(&format!("{what} parser on {t:?}"), || T::from_str(&t))? {
        Ok(y) => ensure_eq!(x, y, "{what}: {s:?} reads as one value, its printed form {t:?} as another"),
        Err(e) => fail!("{what}: {s:?} was accepted, but its printed form {t:?} is refused: {e}"),
    }
    Ok(())
}

fn all_parsers(s: &str) -> Res<Vec<String>> {
    use rgb::{OpId, SchemaId};
    use rgbstd::containers::{ConsignmentId, KitId, SupplId};
    use rgbstd::interface::{IfaceId, ImplId};
    use rgbstd::stl::{Article, Details, MediaRegName, Name, RicardianContract, Ticker};
    let mut hit = vec![];
    let h = &mut hit;
    fixpoint::<RgbInvoice>("invoice", s, h)?;
    fixpoint::<XChainNet<Beneficiary>>("beneficiary", s, h)?;
    fixpoint::<ChainNet>("network", s, h)?;
    fixpoint::<Pay2Vout>("pay-to-vout", s, h)?;
    fixpoint::<RgbTransport>("transport", s, h)?;
    fixpoint::<InvoiceState>("invoice state", s, h)?;
    fixpoint::<Amount>("amount", s, h)?;
    fixpoint::<CoinAmount>("coin amount", s, h)?;
    fixpoint::<Allocation>("allocation", s, h)?;
    fixpoint::<TokenIndex>("token index", s, h)?;
    fixpoint::<OwnedFraction>("fraction", s, h)?;
    fixpoint::<NonFungible>("non-fungible", s, h)?;
    fixpoint::<ContractId>("contract id", s, h)?;
    fixpoint::<SchemaId>("schema id", s, h)?;
    fixpoint::<IfaceId>("interface id", s, h)?;
    fixpoint::<ImplId>("implementation id", s, h)?;
    fixpoint::<SupplId>("supplement id", s, h)?;
    fixpoint::<ConsignmentId>("consignment id", s, h)?;
    fixpoint::<KitId>("kit id", s, h)?;
    fixpoint::<AttachId>("attachment id", s, h)?;
    fixpoint::<OpId>("op id", s, h)?;
    fixpoint::<rgbstd::containers::AnnotationName>("annotation name", s, h)?;
    fixpoint::<Ticker>("ticker", s, h)?;
    fixpoint::<Name>("name", s, h)?;
    fixpoint::<Article>("article", s, h)?;
    fixpoint::<Details>("details", s, h)?;
    fixpoint::<RicardianContract>("ricardian contract", s, h)?;
    fixpoint::<MediaRegName>("media name", s, h)?;
    Ok(hit)
}

/// A valid text of some kind.
fn valid_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => inv().prop_map(|i| build(&i).to_string()),
        2 => (ben(), 0u8..6).prop_map(|(b, n)| beneficiary(&b, n).to_string()),
        1 => (0u8..6).prop_map(|n| NETS[n as usize].to_string()),
        1 => b32().prop_map(|p| Pay2Vout { method: CloseMethod::TapretFirst, address: AddressPayload::Tr(xonly(&p)) }.to_string()),
        1 => tr().prop_map(|t| transport(&t).to_string()),
        1 => u64b().prop_map(|a| Amount::from(a).to_string()),
        2 => (u64b(), 0u8..19, 0u8..3).prop_map(|(a, p, style)| coin_text(a, p, style)),
        1 => (any::<u32>(), u64b()).prop_map(|(a, b)| Allocation::with(a, b).to_string()),
        1 => b32().prop_map(|b| ContractId::from(b).to_string()),
        1 => b32().prop_map(|b| AttachId::from(b).to_string()),
        1 => b32().prop_map(|b| rgbstd::interface::IfaceId::from(b).to_string()),
        1 => b32().prop_map(|b| rgbstd::interface::ImplId::from(b).to_string()),
        1 => b32().prop_map(|b| rgbstd::containers::SupplId::from(b).to_string()),
        1 => b32().prop_map(|b| rgbstd::containers::ConsignmentId::from(b).to_string()),
        1 => b32().prop_map(|b| rgbstd::containers::KitId::from(b).to_string()),
    ]
    .boxed()
}

pub fn coin_text(a: u64, p: u8, style: u8) -> String {
    let c = CoinAmount::new(a, prec(p));
    match style {
        0 => format!("{c}"),
        // known to be total only with a non-zero number of decimals before the repair
        1 if p > 0 => format!("{c:#}"),
        2 if p > 0 => format!("{c:_>#}"),
        _ => format!("{c}"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edited {
    text: String,
    edits: Vec<Edit>,
}

fn baid_parts(s: &str) -> Vec<usize> {
    // positions of payload characters of a checksummed text
    let body_start = s.rfind(':').map(|i| i + 1).unwrap_or(0);
    s.char_indices().filter(|(i, c)| *i >= body_start && c.is_ascii_alphanumeric()).map(|(i, _)| i).collect()
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("Strings are arbitrary, short texts over each parser's alphabet, or valid texts of every kind with 0-4 edits (insert, delete, replace, swap, case, truncate, duplicate); every string goes through all 28 parsers. Non-trivial: at least one parser accepts the string, or it is an edited valid text. Checksummed texts have one payload character replaced by another of the alphabet.");
    ctx.check(
        "edited",
        128000,
        3200000,
        || (valid_text(), vec(edit(), 0..5)).prop_map(|(text, edits)| Edited { text, edits }),
        |e: &Edited, cov| {
            let s = apply_edits(&e.text, &e.edits);
            let hit = all_parsers(&s)?;
            if !e.edits.is_empty() {
                cov.nontrivial();
                cov.class_if(!hit.is_empty(), "edited text accepted by some parser");
                for h in hit {
                    cov.class(format!("accepted {h}"));
                }
            } else {
                ensure!(!hit.is_empty(), "valid text {s:?} is not accepted by any parser");
            }
            Ok(())
        },
    );
    ctx.check(
        "arbitrary",
        128000,
        3200000,
        || {
            prop_oneof![
                wild(),
                any::<String>(),
                "[0-9]{1,21}(\\.[0-9]{0,21})?(~[0-9]{0,4})?",
                "[ _0-9]{0,8}\\.?[ _0-9]{0,8}~?[0-9]{0,3}",
                "[0-9]{0,21}@[0-9]{0,11}",
                "[a-hkmnA-HKMNP-TV-Z]{0,15}",
                "(rpc|http|ws|storm|ftp)s?://[ -~]{0,10}",
                "(rgb|rgb:csg|wvout|utxob|bc|lq|tl):[A-Za-z0-9!$#-]{0,60}",
                "rgb:(~|[A-Za-z0-9!$-]{40,54})/(~|[A-Z][a-z]{0,5})/[a-zA-Z0-9@+:!$~-]{0,70}(\\?[ -~]{0,20})?",
            ]
        },
        |s: &String, cov| {
            let hit = all_parsers(s)?;
            if !hit.is_empty() {
                cov.nontrivial();
            }
            for h in hit {
                cov.class(format!("accepted {h}"));
            }
            Ok(())
        },
    );
    ctx.check(
        "checksum",
        64000,
        1280000,
        || (b32(), 0u8..7, any::<u16>(), any::<u8>()),
        |(payload, kind, pos, repl): &([u8; 32], u8, u16, u8), cov| {
            use rgbstd::containers::{ConsignmentId, KitId, SupplId};
            use rgbstd::interface::{IfaceId, ImplId};
            let text = match kind {
                0 => AttachId::from(*payload).to_string(),
                1 => IfaceId::from(*payload).to_string(),
                2 => ImplId::from(*payload).to_string(),
                3 => SupplId::from(*payload).to_string(),
                4 => ConsignmentId::from(*payload).to_string(),
                5 => KitId::from(*payload).to_string(),
                _ => Pay2Vout { method: CloseMethod::OpretFirst, address: AddressPayload::Wsh(WScriptHash::from_byte_array(*payload)) }
                    .to_string(),
            };
            let checksummed = *kind == 6 || text.contains('#');
            let end = text.find('#').unwrap_or(text.len());
            let parts: Vec<usize> = {
                let prefix = text[..end].rfind(':').map(|i| i + 1).unwrap_or(0);
                baid_parts(&text[..end]).into_iter().filter(|i| *i >= prefix).collect()
            };
            let p = parts[*pos as usize % parts.len()];
            let alphabet = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!$";
            let mut bytes = text.clone().into_bytes();
            let c = alphabet[*repl as usize % 64];
            if bytes[p] == c {
                return Ok(());
            }
            bytes[p] = c;
            let bad = String::from_utf8(bytes).unwrap();
            cov.class(format!("kind {kind}"));
            if !checksummed {
                return Ok(());
            }
            cov.nontrivial();
            let ok = match kind {
                0 => AttachId::from_str(&bad).is_ok(),
                1 => IfaceId::from_str(&bad).is_ok(),
                2 => ImplId::from_str(&bad).is_ok(),
                3 => SupplId::from_str(&bad).is_ok(),
                4 => ConsignmentId::from_str(&bad).is_ok(),
                5 => KitId::from_str(&bad).is_ok(),
                _ => Pay2Vout::from_str(&bad).is_ok(),
            };
            ensure!(!ok, "corrupted '{bad}' (was '{text}') is accepted");
            Ok(())
        },
    );
}

// ---------------------------------------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arith {
    a: u64,
    b: u64,
    p: u8,
}

fn split(a: u64, p: u8) -> (u128, u128) {
    let m = 10u128.pow(p as u32);
    (a as u128 / m, a as u128 % m)
}

/// Exact expected reading of a coin amount text: digits[.digits][~precision].
fn coin_model(int: &str, fract: Option<&str>, precision: Option<u64>) -> Option<(u64, u64, u8)> {
    let int: u64 = int.parse().ok()?;
    let f = fract.unwrap_or("");
    let p = precision.unwrap_or(f.len() as u64);
    if p > 18 || (fract.is_some() && f.is_empty()) || f.len() as u64 > p {
        return None;
    }
    let fr: u64 = format!("{f:0<width$}", width = p as usize).parse().unwrap_or(0);
    let total = int as u128 * 10u128.pow(p as u32) + fr as u128;
    if total > u64::MAX as u128 {
        return None;
    }
    Some((int, fr, p as u8))
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("Amounts are random, near powers of two and ten, and near the 64-bit limit, with every precision 0-18; coin texts are built from digit groups with and without a fraction and precision suffix. Non-trivial: amount above 999 with non-zero precision (arithmetic) or a text with a fraction or precision (texts). All results are compared with 128-bit arithmetic.");
    ctx.check(
        "arith",
        320000,
        9600000,
        || (u64b(), u64b(), 0u8..19).prop_map(|(a, b, p)| Arith { a, b, p }),
        |Arith { a, b, p }: &Arith, cov| {
            let (a, b, p) = (*a, *b, *p);
            if a > 999 && p > 0 {
                cov.nontrivial();
            }
            let pr = prec(p);
            let x = Amount::from(a);
            let y = Amount::from(b);
            let m = 10u128.pow(p as u32);
            ensure_eq!(pr.multiplier() as u128, m, "multiplier");
            ensure_eq!(pr.decimals(), p, "decimals");
            let (i, f) = split(a, p);
            ensure_eq!(x.value(), a, "value");
            let (si, sf) = x.split(pr);
            ensure_eq!((si as u128, sf as u128), (i, f), "split of {a} by {p}");
            ensure_eq!(x.floor(pr) as u128, i, "floor of {a} by {p}");
            ensure_eq!(x.rem(pr) as u128, f, "remainder of {a} by {p}");
            ensure_eq!(x.ceil(pr) as u128, (a as u128).div_ceil(m), "ceil of {a} by {p}");
            let round = i + if 2 * f >= m { 1 } else { 0 };
            ensure_eq!(x.round(pr) as u128, round, "rounding of {a} by {p}");
            // conversion
            let conv = a as u128 * m;
            let fits = conv <= u64::MAX as u128;
            ensure_eq!(pr.checked_convert(a), fits.then(|| Amount::from(conv as u64)), "checked conversion of {a} by {p}");
            ensure_eq!(Amount::with_precision_checked(a, pr), fits.then(|| Amount::from(conv as u64)), "checked precision of {a} by {p}");
            ensure_eq!(pr.saturating_convert(a), Amount::from(conv.min(u64::MAX as u128) as u64), "saturating conversion of {a} by {p}");
            if fits {
                ensure_eq!(Amount::with_precision(a, pr), Amount::from(conv as u64), "conversion of {a} by {p}");
                ensure_eq!(pr.unchecked_convert(a), Amount::from(conv as u64), "conversion of {a} by {p}");
            }
            // addition and subtraction, for amounts and fractions
            let sum = a as u128 + b as u128;
            let sumfit = sum <= u64::MAX as u128;
            let sat = sum.min(u64::MAX as u128) as u64;
            ensure_eq!(x.checked_add(y), sumfit.then(|| Amount::from(sum as u64)), "{a} + {b}");
            ensure_eq!(x.saturating_add(y), Amount::from(sat), "{a} + {b} saturating");
            ensure_eq!(x.checked_sub(y), (a >= b).then(|| Amount::from(a - b)), "{a} - {b}");
            ensure_eq!(x.saturating_sub(y), Amount::from(a.saturating_sub(b)), "{a} - {b} saturating");
            let mut z = x;
            z.saturating_add_assign(y);
            ensure_eq!(z, Amount::from(sat), "{a} += {b} saturating");
            let mut z = x;
            z.saturating_sub_assign(y);
            ensure_eq!(z, Amount::from(a.saturating_sub(b)), "{a} -= {b} saturating");
            let mut z = x;
            let r = z.checked_add_assign(y);
            ensure_eq!((r, z), if sumfit { (Some(()), Amount::from(sum as u64)) } else { (None, x) }, "{a} += {b}");
            let mut z = x;
            let r = z.checked_sub_assign(y);
            ensure_eq!((r, z), if a >= b { (Some(()), Amount::from(a - b)) } else { (None, x) }, "{a} -= {b}");
            ensure_eq!([x, y].into_iter().sum::<Amount>(), Amount::from(sat), "sum");
            ensure_eq!([a, b].into_iter().sum::<Amount>(), Amount::from(sat), "sum of numbers");
            let (fx, fy) = (OwnedFraction::from(a), OwnedFraction::from(b));
            ensure_eq!(fx.value(), a, "fraction value");
            ensure_eq!(fx.checked_add(fy), sumfit.then(|| OwnedFraction::from(sum as u64)), "fraction {a} + {b}");
            ensure_eq!(fx.saturating_add(fy), OwnedFraction::from(sat), "fraction {a} + {b} saturating");
            ensure_eq!(fx.checked_sub(fy), (a >= b).then(|| OwnedFraction::from(a - b)), "fraction {a} - {b}");
            ensure_eq!(fx.saturating_sub(fy), OwnedFraction::from(a.saturating_sub(b)), "fraction {a} - {b} saturating");
            let mut z = fx;
            z.saturating_add_assign(fy);
            ensure_eq!(z.value(), sat, "fraction {a} += {b} saturating");
            let mut z = fx;
            z.saturating_sub_assign(fy);
            ensure_eq!(z.value(), a.saturating_sub(b), "fraction {a} -= {b} saturating");
            let mut z = fx;
            let r = z.checked_add_assign(fy);
            ensure_eq!((r, z.value()), if sumfit { (Some(()), sum as u64) } else { (None, a) }, "fraction {a} += {b}");
            let mut z = fx;
            let r = z.checked_sub_assign(fy);
            ensure_eq!((r, z.value()), if a >= b { (Some(()), a - b) } else { (None, a) }, "fraction {a} -= {b}");
            // state conversions
            let st: rgb::FungibleState = x.into();
            ensure_eq!(st.as_u64(), a, "fungible state");
            ensure_eq!(Amount::from(st), x, "amount from state");
            // coin amounts
            let c = CoinAmount::new(a, pr);
            ensure_eq!((c.int() as u128, c.fract() as u128, c.precision()), (i, f, pr), "coin amount of {a} by {p}");
            let w = total("CoinAmount::with", || CoinAmount::with(a, b, pr))?;
            let ok = (b as u128) < m && a as u128 * m + b as u128 <= u64::MAX as u128;
            match (&w, ok) {
                (Ok(c), true) => ensure_eq!((c.int(), c.fract(), c.precision()), (a, b, pr), "coin amount of parts"),
                (Err(_), false) => {}
                (Ok(_), false) => fail!("coin amount {a} + {b} of precision {p} accepted though not representable"),
                (Err(_), true) => fail!("coin amount {a} + {b} of precision {p} refused"),
            }
            Ok(())
        },
    );
    ctx.check("amount-text", 128000, 3200000, u64b, |a: &u64, cov| {
        if *a > 255 {
            cov.nontrivial();
        }
        let x = Amount::from(*a);
        let s = x.to_string();
        match Amount::from_str(&s) {
            Ok(y) => ensure_eq!(x, y, "amount printed as {s}"),
            Err(e) => fail!("amount {a} prints as {s} which does not parse: {e}"),
        }
        ensure!(s.bytes().all(|b| b.is_ascii_alphabetic()), "amount {a} prints as {s}");
        let alloc = Allocation::with((*a >> 13) as u32, *a);
        let s = alloc.to_string();
        match Allocation::from_str(&s) {
            Ok(y) => ensure_eq!(alloc, y, "allocation printed as {s}"),
            Err(e) => fail!("allocation prints as {s} which does not parse: {e}"),
        }
        ensure_eq!(s, format!("{}@{}", a, (*a >> 13) as u32), "allocation text");
        let d = rgb::DataState::from(alloc);
        ensure_eq!(Allocation::from(d), alloc, "allocation state");
        Ok(())
    });
    ctx.check("coin-print", 192000, 4800000, || (u64b(), 0u8..19), |(a, p): &(u64, u8), cov| {
        let c = CoinAmount::new(*a, prec(*p));
        let (i, f) = split(*a, *p);
        if f > 0 && i > 999 {
            cov.nontrivial();
        }
        cov.class_if(f == 0, "whole");
        let plain = total("display", || format!("{c}"))?;
        let frac = format!("{f:0>w$}", w = *p as usize);
        let expect = if f > 0 { format!("{i}.{}~{p}", frac.trim_end_matches('0')) } else { format!("{i}~{p}") };
        ensure_eq!(plain, expect, "plain form of {a} by {p}");
        for (style, text) in [
            ("plain", Ok(plain)),
            ("spaced", no_panic(|| format!("{c:#}"))),
            ("lodashed", no_panic(|| format!("{c:_>#}"))),
        ] {
            let text = match text {
                Ok(t) => t,
                Err(e) => fail!("{style} form of {a} by {p} crashed: {e}"),
            };
            // the digits are those of the amount
            let stripped = text.replace([' ', '_'], "");
            let body = stripped.split('~').next().unwrap();
            let (ti, tf) = body.split_once('.').unwrap_or((body, ""));
            ensure_eq!(ti.to_string(), i.to_string(), "integer digits of {text}");
            ensure_eq!(tf.trim_end_matches('0'), if f > 0 { frac.trim_end_matches('0') } else { "" }, "fraction digits of {text}");
            match total("parsing", || CoinAmount::from_str(&text))? {
                Ok(y) => ensure_eq!((y.int() as u128, y.fract() as u128, y.precision()), (i, f, prec(*p)), "{style} form {text} reads as another amount"),
                Err(e) => fail!("{style} form '{text}' of {a} by {p} does not parse: {e}"),
            }
        }
        Ok(())
    });
    ctx.check(
        "coin-parse",
        192000,
        4800000,
        || ("[0-9]{1,21}", option::of("[0-9]{0,21}"), option::of(prop_oneof![0u64..20, any::<u64>()]), any::<bool>()),
        |(int, fract, precision, sep): &(String, Option<String>, Option<u64>, bool), cov| {
            if fract.is_some() || precision.is_some() {
                cov.nontrivial();
            }
            let mut text = int.clone();
            if *sep && text.len() > 1 {
                text.insert(1, '_');
            }
            if let Some(f) = fract {
                text.push('.');
                text.push_str(f);
            }
            if let Some(p) = precision {
                text.push_str(&format!("~{p}"));
            }
            let model = coin_model(int, fract.as_deref(), *precision);
            let got = total(&format!("parsing {text}"), || CoinAmount::from_str(&text))?;
            cov.class(if model.is_some() { "representable" } else { "not representable" });
            match (got, model) {
                (Ok(c), Some(m)) => ensure_eq!((c.int(), c.fract(), c.precision().decimals()), m, "reading of {text}"),
                (Err(_), None) => {}
                (Ok(c), None) => fail!("'{text}' is not representable but reads as {c:?}"),
                (Err(e), Some(m)) => fail!("'{text}' stands for {m:?} but is refused: {e}"),
            }
            Ok(())
        },
    );
}
