#!/usr/bin/env python3
"""Writes properties.jsonl (authoring helper; not run by any check)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Invoice text form is lossless",
  "Every invoice that names an interface whenever it names a contract, printed in plain or compact form and parsed again, gives an invoice equal in every field: contract, interface, requested state, beneficiary and its network, expiry, transports and any extra query parameters. Invoices composed through the invoice builder carry exactly what was put into them, and parameters which cannot be represented are refused by the builder instead of crashing or being silently changed.",
  ["inputs"], "all combinations of contract, interface name, amount/allocation/attachment state, blinded or address beneficiary on each network, expiry, transports, arbitrary Unicode query keys and values",
  "The existing tests parse about twenty hand-written strings on bitcoin networks with simple query values.",
  ["invoice/src/parse.rs", "invoice/src/invoice.rs", "invoice/src/builder.rs"],
  [("Display/FromStr for RgbInvoice", "invoice/src/parse.rs"), ("RgbInvoiceBuilder", "invoice/src/builder.rs")],
  ["RgbInvoice::to_string / from_str", "RgbInvoiceBuilder"])
p("C02", "Untrusted text is parsed or refused, never misread",
  "Any string given to a public text parser (invoices, beneficiaries, transports, amounts, allocations, identifiers, tickers, media types, armored containers) is either refused with an error or accepted without a crash. When it is accepted, printing the result and parsing it again gives the same value, and corrupting a character of a checksummed part is refused.",
  ["inputs"], "arbitrary and near-valid strings for every public text parser",
  "Unit tests check a few malformed strings per parser; the property ranges over all strings.",
  ["invoice/src/parse.rs", "invoice/src/amount.rs", "invoice/src/data.rs", "src/containers/consignment.rs", "src/stl/specs.rs", "src/stl/mime.rs"],
  [("FromStr implementations", "invoice/src, src/stl, src/containers")], ["FromStr / Display pairs"])
p("C03", "Coin amount arithmetic and text are exact",
  "Splitting an amount by a precision, rounding, converting back, adding and subtracting agree with exact integer arithmetic for every 64-bit amount and every precision; results which do not fit are reported (or saturated where so named) and never wrap. The printed form of an amount or coin amount, in any formatting style, reads back as the same value, and a fractional part with more digits than the precision allows is refused.",
  ["inputs"], "all u64 amounts, all 19 precisions, all pairs for arithmetic, all formatting styles",
  "Existing tests print four amounts at one precision and never parse one.",
  ["invoice/src/amount.rs", "invoice/src/data.rs", "invoice/src/builder.rs"],
  [("Amount, Precision, CoinAmount", "invoice/src/amount.rs"), ("OwnedFraction", "invoice/src/data.rs")],
  ["Amount", "Precision", "CoinAmount", "OwnedFraction"])
p("C04", "Standard asset data survives its typed encoding",
  "Every value of the standard asset data types (asset and contract specifications, terms, amounts, precisions, allocations, attachments, issue and burn records, reserve proofs) when strictly encoded is well-formed under the published type library, and reading it back, either as bytes or through the typed value view, gives the same value. Short names and tickers accept exactly their documented alphabets and lengths, and equal, ordered and hashed consistently.",
  ["inputs"], "all values constructible through the public constructors of the standard data types",
  "Existing tests only compare identifiers of the type library with constants.",
  ["src/stl/specs.rs", "src/stl/mime.rs", "src/stl/chain.rs", "src/stl/stl.rs", "invoice/src/data.rs"],
  [("from_strict_val_unchecked readers", "src/stl/specs.rs"), ("type library", "src/stl/stl.rs")],
  ["StrictSerialize / StrictDeserialize", "from_strict_val_unchecked", "TypeSystem::strict_deserialize_type"])
p("C05", "Containers survive binary, armored and file storage",
  "Every kit, contract consignment, transfer consignment, batch and anchored bundle set which fits the size limits, written as bytes, as armored text or to a file (when the kind has such forms) and read back, is equal to the original and keeps its identifier. Reading tells the container kinds apart: a file or an armored text of one kind is never accepted as another.",
  ["inputs"], "containers of all kinds built from generated schemata, interfaces, contracts and transfer histories, in all storage forms",
  "Existing tests read back six fixed default files holding empty containers.",
  ["src/containers/file.rs", "src/containers/consignment.rs", "src/containers/kit.rs", "src/containers/partials.rs", "src/containers/anchors.rs", "src/containers/suppl.rs"],
  [("FileContent / UniversalFile", "src/containers/file.rs"), ("StrictArmor impls", "src/containers/consignment.rs, src/containers/kit.rs")],
  ["FileContent::save/load", "UniversalFile", "to_string/from_str"])
p("C06", "Damaged containers are refused or still self-consistent",
  "A container image (bytes, file or armored text) that was truncated, extended or altered at any position is read without a crash; it is either refused or read as a container which re-encodes to exactly the altered content. Armored text whose body stands for other data, or whose checksum or identifier was altered, is always refused, and so is a file with a changed magic number.",
  ["inputs", "fault_sequences"], "every truncation point and any combination of byte changes of serialized containers",
  "Existing tests alter three places in two armored texts; the property is over all positions and bytes.",
  ["src/containers/file.rs", "src/containers/consignment.rs", "src/containers/kit.rs"],
  [("strict decoding", "src/containers/*.rs"), ("armor id and checksum verification", "src/containers/consignment.rs")],
  ["FileContent::load", "from_str", "from_strict_serialized"])
p("C07", "Identifiers bind content and nothing else",
  "Two kits, consignments, interfaces, implementations or supplements which differ in any part of their content have different identifiers, and the same content always has the same one, also after writing and reading it. Concealing seals or states of a contract, operation or bundle keeps its identifier. Every identifier prints to text which carries its own kind prefix and parses back to it, and which is refused where an identifier of another kind is expected.",
  ["inputs"], "pairs of generated objects differing in one field, and all concealments of one object",
  "Existing tests compare a handful of identifiers with constants.",
  ["src/containers/consignment.rs", "src/containers/kit.rs", "src/containers/suppl.rs", "src/containers/anchors.rs", "src/interface/iface.rs", "src/interface/iimpl.rs"],
  [("CommitEncode impls", "src/containers, src/interface")], ["*_id() methods", "Display/FromStr of ids"])
p("C08", "Merging partial disclosures loses nothing",
  "Merging two partial views of the same operation, bundle, anchor or witness (each revealing a different part) gives a view with the same identifier revealing everything that either revealed, whatever the order of merging, and merging a view with itself changes nothing. Views of different operations, bundles or witnesses are refused with an error. Disclosing a seal of a bundle discloses exactly the assignments to this seal and changes nothing else.",
  ["inputs"], "all pairs and triples of partial concealments of generated operations, bundles, anchors and witnesses",
  "There are no tests for merging.",
  ["src/contract/merge_reveal.rs", "src/containers/anchors.rs"],
  [("MergeReveal impls", "src/contract/merge_reveal.rs, src/containers/anchors.rs")],
  ["MergeReveal::merge_reveal", "AnchorSet::merge_reveal", "WitnessBundle::merge_reveal"])
p("C09", "Issued contracts hold exactly what the issuer specified",
  "A contract issued through the contract builder contains exactly the global state, owned state, rights, data, attachments, asset tags and chain settings which were added to the builder, at the seals given, is valid, and imports into a stock where the interface view returns the same values. Requests naming unknown fields or states of a wrong type are refused, and nothing added without an error is left out of the contract.",
  ["inputs", "programs"], "all sequences of builder calls over a schema with every kind of state",
  "There are no tests which issue a contract.",
  ["src/interface/builder.rs", "src/interface/contract.rs", "src/persistence/stock.rs"],
  [("ContractBuilder", "src/interface/builder.rs"), ("ContractIface", "src/interface/contract.rs")],
  ["ContractBuilder::issue_contract(_det)", "Stock::import_contract", "ContractIface accessors"])
p("C10", "Deterministic construction is reproducible",
  "Building the same contract or payment twice through the deterministic interface from the same inputs, in any order of adding independent elements, gives byte-identical operations and identifiers, within one process and across processes. Non-deterministic construction differs from it only in blinding entropy: amounts, seals' outputs and data are the same.",
  ["inputs", "programs"], "all sequences of builder and composition calls, in permuted orders",
  "There are no tests of the builders; hash-map iteration makes single runs inconclusive.",
  ["src/interface/builder.rs", "src/persistence/stock.rs"],
  [("deterministic builder mode", "src/interface/builder.rs"), ("compose_deterministic", "src/persistence/stock.rs")],
  ["issue_contract_det", "compose_deterministic"])
p("C11", "Composed payments conserve every asset",
  "A payment composed for an invoice closes each selected output of each contract exactly once, pays the beneficiary exactly the requested state, and returns all remaining state of the paid contract and all state of every other contract assigned to these outputs to outputs chosen by the payer's allocator, so that no asset is created or lost. A payment which cannot be covered by the selected outputs, or which names an unknown contract, interface or state, is refused.",
  ["inputs", "histories"], "all invoices over all sets of outputs holding several contracts, state types and both closing methods",
  "There are no tests for payment composition.",
  ["src/persistence/stock.rs", "src/interface/builder.rs", "src/containers/partials.rs"],
  [("Stock::compose*", "src/persistence/stock.rs"), ("TransitionBuilder", "src/interface/builder.rs"), ("Batch", "src/containers/partials.rs")],
  ["Stock::compose_deterministic", "Batch"])
p("C12", "Delivered transfers validate and arrive in full",
  "A transfer exported by a stock for given outputs or a blinded seal is accepted by any other stock which can see the same chain, after which that stock shows every piece of state the transfer was made for, with the same values and provenance, and can itself transfer it further or re-export it. Blinded beneficiaries that the recipient stored are revealed on acceptance; seals of other parties stay concealed unless already public.",
  ["histories"], "all histories of issues, payments and re-transfers between several parties, with several contracts, both closing methods and any choice of exported outputs",
  "There are no tests that move an asset between two stocks.",
  ["src/persistence/stock.rs", "src/persistence/stash.rs", "src/containers/consignment.rs", "src/containers/indexed.rs"],
  [("Stock::transfer/consign", "src/persistence/stock.rs"), ("accept_transfer", "src/persistence/stock.rs"), ("IndexedConsignment", "src/containers/indexed.rs")],
  ["Stock::transfer", "Transfer::validate", "Stock::accept_transfer"])
p("C13", "Contract state equals the replay of its history",
  "At any point of a history the owned and global state which a stock reports for a contract is exactly the state produced by replaying the accepted operations whose witnesses are not archived: every valid allocation appears once, with its value, seal and witness, and nothing else appears. Parties which accepted the same operations report the same state.",
  ["histories"], "all histories of imports, payments, acceptances and own commitments across several parties",
  "Tests never build a history; the property is over sequences of operations.",
  ["src/persistence/memory.rs", "src/persistence/state.rs", "src/interface/contract.rs", "src/contract/assignments.rs"],
  [("ContractStateEvolve for MemContract", "src/persistence/memory.rs"), ("update_from_consignment/bundle", "src/persistence/state.rs")],
  ["Stock::contract_iface", "ContractIface accessors"],
  [("MemContract", "known state of one contract", "src/persistence/memory.rs")])
p("C14", "Reported state follows witness status through reorgs",
  "After any sequence of witness status updates (tentative, mined at some height, archived, mined again) the reported state depends only on the latest status of each witness: it equals the state of a stock which learned that status from the start. Archiving hides the state created by the witness, re-mining restores it, an unresolvable witness changes nothing and is reported as failed.",
  ["histories", "fault_sequences"], "all sequences of status updates over all histories, with resolver failures at any call",
  "There are no tests with witnesses whose status changes.",
  ["src/persistence/memory.rs", "src/persistence/state.rs", "src/persistence/stock.rs"],
  [("update_witnesses", "src/persistence/stock.rs"), ("MemState::update_witnesses", "src/persistence/memory.rs"), ("valid state filters", "src/persistence/memory.rs")],
  ["Stock::update_witnesses", "ContractIface accessors"],
  [("witnesses", "known status of each witness", "src/persistence/memory.rs")])
p("C15", "Global state is reported in consensus order and in full",
  "For every global state type the values reported by a contract are those declared by its valid operations, in consensus order (genesis first, then extensions and transitions by the position of their witness), never more than the declared limit and always including the latest ones. Reading them never crashes, and the position of a witness in the chain, not the order of import, decides the order.",
  ["histories", "inputs"], "all contracts with several global values of one type declared in genesis and any number of transitions mined at any heights and imported in any order",
  "No test reads a global state with more than zero values.",
  ["src/persistence/memory.rs", "src/interface/contract.rs", "src/contract/mod.rs"],
  [("MemContract::global", "src/persistence/memory.rs"), ("ContractIface::global", "src/interface/contract.rs")],
  ["ContractIface::global", "ContractStateAccess::global"])
p("C16", "Stored history can always be found again",
  "Everything a stock has accepted can be looked up: for each contract, each unspent or spent assignment is found by its outpoint, each blinded one by its secret seal, each operation by its bundle, each bundle by its witness and contract; and lookups return nothing else. The contracts reported for a set of outputs are exactly those with state assigned to one of these outputs.",
  ["histories"], "all histories of imports and commitments; all outputs and seals",
  "There are no tests of the index.",
  ["src/persistence/index.rs", "src/persistence/memory.rs", "src/persistence/stock.rs"],
  [("Index", "src/persistence/index.rs"), ("MemIndex", "src/persistence/memory.rs")],
  ["Stock::contracts_assigning", "IndexReadProvider", "Stock::contract_state"])
p("C17", "Importing is repeatable, order-free and never forgets",
  "Importing the same kit, contract or transfer again changes nothing that a stock reports, importing a set of objects gives the same reported content in any order in which each import succeeds, and no import removes or replaces what was known before except for revealing more of it or updating the implementation of an interface of the same name. Contracts and transfers exported after imports are valid and contain every operation, state, interface and witness of the imported ones.",
  ["histories", "schedules"], "all multisets and orders of imports of kits, contracts and transfers with overlapping content",
  "There are no import tests.",
  ["src/persistence/stash.rs", "src/persistence/memory.rs", "src/persistence/stock.rs"],
  [("Stash::consume_*", "src/persistence/stash.rs"), ("Mem* write providers", "src/persistence/memory.rs")],
  ["Stock::import_kit/import_contract/accept_transfer", "Stock::kits/schemata/ifaces/contracts"])
p("C18", "Invalid or foreign data is rejected without side effects",
  "A consignment in which any operation, commitment, witness, state or schema link was altered is reported as invalid rather than accepted, unless the alteration does not affect its committed meaning, and validation and import never crash on it. When an import or update is refused, every query on the stock answers as before and later valid imports succeed as if the refused one had not happened.",
  ["inputs", "fault_sequences", "histories"], "all alterations of generated consignments, kits and commitments at any point of a history",
  "There are no tests with invalid consignments.",
  ["src/containers/consignment.rs", "src/containers/indexed.rs", "src/persistence/stock.rs", "src/persistence/stash.rs"],
  [("Consignment::validate", "src/containers/consignment.rs"), ("store_transaction", "src/persistence/stock.rs")],
  ["Consignment::validate", "Stock::import_*", "Stock::accept_transfer", "Stock::consume_fascia"])
p("C19", "A saved stock reloads as it was",
  "A stock saved to its storage at any point of a history and loaded again answers every query as the one that was saved and continues the history in the same way. A stock saved through its directory provider after every change, then reloaded, equals an in-memory stock which went through the same history.",
  ["histories", "crash_points"], "all histories with saves and reloads at any point",
  "There are no persistence tests.",
  ["src/persistence/fs.rs", "src/persistence/memory.rs", "src/persistence/stock.rs"],
  [("FsBinStore", "src/persistence/fs.rs"), ("Persisting impls", "src/persistence/memory.rs")],
  ["Stock::load / store", "make_persistent"])
p("C20", "Interrupted storage never corrupts silently",
  "When writing any part of the stock to storage fails, a change is either reported as an error, leaving everything the stock reports as before, or completed and stored; once storage works again the change succeeds and the stored stock equals the one in memory. Loading storage with missing, truncated or extended files is refused with an error, and altered files are refused or read as exactly what they contain, never crashing and never giving partial content.",
  ["fault_sequences", "crash_points"], "failure of each individual storage write in a history; each truncation point and byte damage of each stored file",
  "There are no persistence tests and no fault injection.",
  ["src/persistence/fs.rs", "src/persistence/stock.rs", "src/persistence/memory.rs"],
  [("FsBinStore load/store", "src/persistence/fs.rs"), ("commit_transaction", "src/persistence/memory.rs")],
  ["Stock::load", "Stock operations with a failing provider"])
p("C21", "Wallet history agrees with balances",
  "For any wallet (a set of own outputs and own witness transactions) the reported history of a contract lists each state issued to its outputs, each state received on its outputs from transactions of others, and each known state its own transactions assigned to outputs of others, once, with the total amount per kind of state, the operations which made it and the witness. When all payments go to known outputs, amounts issued plus received minus sent equal the balance of unspent own outputs. Obtaining a history never crashes.",
  ["histories", "inputs"], "all histories and all partitions of outputs between own and foreign",
  "There are no tests of contract history.",
  ["src/interface/contract.rs", "src/interface/filter.rs"],
  [("ContractIface::history*", "src/interface/contract.rs")], ["ContractIface::history", "ContractOp"])
p("C22", "State filters select exactly the requested state",
  "For any set of outputs, the fungible, data, rights and attachment state reported through a filter is exactly the part of the unfiltered state assigned to these outputs (or, for witness filters, created by these witnesses), and the per-output summary lists the same allocations. Combining, borrowing or wrapping a filter does not change what it selects.",
  ["histories", "inputs"], "all contract states and all filter sets and kinds",
  "There are no tests of filters.",
  ["src/interface/filter.rs", "src/interface/contract.rs", "src/contract/assignments.rs"],
  [("AssignmentsFilter impls", "src/interface/filter.rs")], ["ContractIface::fungible/data/rights/attachments/allocations/outpoint_allocations"])
p("C23", "Interface checks accept exactly consistent definitions",
  "An interface is reported inconsistent exactly when one of its operations refers to state, errors or defaults it does not declare or breaks the documented rules; an implementation is reported inconsistent exactly when it refers to unknown schema elements or errors, uses a name twice, or misses an element of the interface other than an optional operation. Consistent definitions are reported without errors, and the same definition is always judged the same way.",
  ["inputs"], "generated interfaces, schemata and implementations, consistent by construction and with one or more single-element defects",
  "Existing tests cover only identifiers of the interface library.",
  ["src/interface/iface.rs", "src/interface/iimpl.rs"],
  [("Iface::check", "src/interface/iface.rs"), ("IfaceImpl::check", "src/interface/iimpl.rs")],
  ["Iface::check", "IfaceImpl::check"])
p("C24", "Interface inheritance keeps the inherited contract usable",
  "Extending an interface by a compatible one gives an interface containing all elements of both and naming all ancestors (optional operations only modify inherited ones), and is refused with all the reasons when elements conflict, are final or exceed limits; a schema is accepted as inheriting a root exactly when every state and operation element it declares is declared the same way by the root. Translating an implementation to a parent interface keeps exactly the elements named by the parent, with the same identifiers, and a contract seen through a derived interface shows the same state as through the implemented one.",
  ["inputs"], "generated families of compatible and conflicting interfaces, schemata and implementations",
  "There are no inheritance tests.",
  ["src/interface/inheritance.rs", "src/interface/iimpl.rs"],
  [("Iface::expect_extended, CheckInheritance", "src/interface/inheritance.rs"), ("IfaceImpl::abstracted", "src/interface/inheritance.rs")],
  ["Iface::expect_extended", "SchemaIssue inheritance check", "IfaceImpl::abstracted"])
p("C25", "Supplements and annotations are kept and merged",
  "A value annotated on a subject of a supplement is returned unchanged for this subject and field until replaced, annotations of other subjects and fields are not affected, and a refused annotation leaves the supplement as it was. All supplements imported with kits and consignments are reported for their subject, a known one is exported with each content that has any, and the hints they give for change reach the wallet when a payment is composed.",
  ["inputs", "programs"], "all sequences of annotate and read calls; all imports of supplement sets",
  "There are no supplement tests.",
  ["src/containers/suppl.rs", "src/persistence/memory.rs", "src/persistence/stash.rs"],
  [("Supplement", "src/containers/suppl.rs")], ["Supplement::annotate/get", "stash supplement queries"])
p("C26", "Content signatures and seals are kept across import and export",
  "Signatures attached to imported content are retained for every signing identity, never attached to another content, not accepted from identities marked as malicious, and exported with the contracts, schemata, interfaces and implementations they sign; exceeding their limit doesn't lose known ones. A stored own seal is found again by its blinded form, whatever is imported in between.",
  ["inputs", "histories"], "all signature sets over all content kinds; all orders of storing seals and importing",
  "There are no signature or seal storage tests.",
  ["src/containers/util.rs", "src/persistence/stash.rs", "src/persistence/memory.rs"],
  [("ContentSigs", "src/containers/util.rs"), ("import_sigs", "src/persistence/memory.rs"), ("add_secret_seal", "src/persistence/memory.rs")],
  ["Stash queries", "export_contract / transfer signatures", "Stock::store_secret_seal"])
p("C27", "Listings describe all known content and nothing else",
  "A stock lists every imported interface, schema and contract exactly once, with the name, identifier, developer or issuer, date, network and inherited or implemented interfaces of its definition, and finds each of them by name and by identifier. A contract is listed for an interface class exactly when its schema implements the class, an exported schema arrives in another stock with the same description and is usable for issuing, and unknown names and identifiers are refused.",
  ["inputs", "histories"], "all sets of interfaces, schemata and implementations in any kits; all histories of contracts",
  "There are no tests of listings.",
  ["src/info.rs", "src/persistence/stock.rs", "src/persistence/stash.rs"],
  [("IfaceInfo, SchemaInfo, ContractInfo", "src/info.rs"), ("ifaces, schemata, contracts, contracts_by, export_schema", "src/persistence/stock.rs")],
  ["Stock::ifaces/schemata/contracts/contracts_by/contract_info/export_schema"])
p("C28", "Transitions hold exactly what the wallet specified",
  "A transition completed by the transition builder, whether created directly or by a stock for a known contract, belongs to the contract and has the operation type, nonce, metadata, global state, inputs and owned state which were added to the builder, with amounts, data and rights at the given seals, under the asset tags of the contract and with the blinding factors and salts provided; blinding factors of its outputs balance those of its inputs. Requests which name unknown operations or fields, give a state of a wrong type, miss an asset tag or come with a foreign one are refused and leave nothing in the transition.",
  ["inputs", "programs"], "all sequences of builder calls over a schema with every kind of state, for blank, default and named operations",
  "There are no tests of the transition builder.",
  ["src/interface/builder.rs", "src/persistence/stash.rs"],
  [("TransitionBuilder, OperationBuilder", "src/interface/builder.rs"), ("transition_builder, blank_builder", "src/persistence/stash.rs")],
  ["TransitionBuilder methods", "Stock::transition_builder/blank_builder"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
