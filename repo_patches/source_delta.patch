From 47c0bd36b5940e9c66beab4b9c530f73d59a1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:00 +0000
Subject: [PATCH 01/59] fix: refuse coin amounts which overflow the 64-bit
 number of units

---
 invoice/src/amount.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 9007f08..4567d17 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -328,6 +328,10 @@ impl CoinAmount {
         if fract >= pow {
             return Err(PrecisionError);
         }
+        // the whole amount must fit into the 64-bit number of the smallest units
+        if int.checked_mul(pow).and_then(|v| v.checked_add(fract)).is_none() {
+            return Err(PrecisionError);
+        }
         Ok(CoinAmount {
             int,
             fract,
-- 
2.43.0


From 96e736da0c71ecf9939b8ff75ebc900d033440ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:00 +0000
Subject: [PATCH 02/59] fix: print indivisible coin amounts in the alternate
 form

---
 invoice/src/amount.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 4567d17..ce71e71 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -384,11 +384,11 @@ impl Display for CoinAmount {
             int = to_chunks(&int);
         }
         f.write_str(&int)?;
-        if self.fract > 0 || f.alternate() {
+        let decimals = self.precision.decimals() as usize;
+        if self.fract > 0 || (f.alternate() && decimals > 0) {
             f.write_char('.')?;
             let mut float = self.fract.to_string();
             let len = float.len();
-            let decimals = self.precision.decimals() as usize;
             match len.cmp(&decimals) {
                 Ordering::Less => {
                     float = format!("{:0>width$}{float}", "", width = decimals - len);
-- 
2.43.0


From 656ef7a897ec8ab1b91336c6bde260f5cbc42f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:00 +0000
Subject: [PATCH 03/59] fix: read coin amounts back as they are printed

---
 invoice/src/amount.rs | 44 +++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index ce71e71..deac88f 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -427,6 +427,10 @@ pub enum AmountParseError {
     /// invalid amount precision exceeding 18
     #[from]
     UnknownPrecision(VariantError<u8>),
+
+    /// amount can't be represented with the given precision
+    #[from(PrecisionError)]
+    Unrepresentable,
 }
 
 impl FromStr for CoinAmount {
@@ -434,23 +438,35 @@ impl FromStr for CoinAmount {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = s.replace([' ', '_'], "");
-        let (int, remain) = s.split_once('.').unwrap_or_else(|| (&s, "0"));
-        let (fract, precision) = remain.split_once('~').unwrap_or((remain, ""));
-        let precision = if precision.is_empty() {
-            fract.len() as u64
-        } else {
-            precision
+        let (amount, precision) = match s.split_once('~') {
+            Some((amount, precision)) => (amount, Some(precision)),
+            None => (s.as_str(), None),
+        };
+        let (int, fract) = match amount.split_once('.') {
+            Some((int, fract)) => (int, Some(fract)),
+            None => (amount, None),
+        };
+        let precision = match precision {
+            None => fract.map(str::len).unwrap_or_default() as u64,
+            Some(precision) => precision
                 .parse()
-                .map_err(AmountParseError::InvalidPrecision)?
+                .map_err(AmountParseError::InvalidPrecision)?,
         };
         let int: u64 = int.parse().map_err(AmountParseError::InvalidInt)?;
-        let fract: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
-        let precision = u8::try_from(precision)?;
-        Ok(CoinAmount {
-            int,
-            fract,
-            precision: Precision::try_from(precision)?,
-        })
+        let precision = Precision::try_from(u8::try_from(precision)?)?;
+        let fract: u64 = match fract {
+            None => 0,
+            Some(fract) => {
+                let value: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
+                // the digits after the dot stand for the highest decimals
+                let missed = (precision.decimals() as usize)
+                    .checked_sub(fract.len())
+                    .filter(|_| !fract.starts_with('+'))
+                    .ok_or(AmountParseError::Unrepresentable)?;
+                value * 10u64.pow(missed as u32)
+            }
+        };
+        Ok(CoinAmount::with(int, fract, precision)?)
     }
 }
 
-- 
2.43.0


From 046564a6a3760c86d7a52cea9aafec4c6495080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:15 +0000
Subject: [PATCH 04/59] fix: read liquid mainnet beneficiaries as liquid
 mainnet

---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 08e4a37..90e74c6 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -228,7 +228,7 @@ impl FromStr for ChainNet {
             x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
             x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
             x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
-            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
+            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
             x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
             _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
         }
-- 
2.43.0


From 209170fd09fe3b5e0b85b500f253801cccf597b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:15 +0000
Subject: [PATCH 05/59] fix: percent-encode all characters not allowed in
 invoice queries

---
 invoice/src/parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 90e74c6..652c666 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -50,6 +50,13 @@ const QUERY_ENCODE: &AsciiSet = &CONTROLS
     .add(b'>')
     .add(b'[')
     .add(b']')
+    .add(b'%')
+    .add(b'\\')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}')
     .add(b'&')
     .add(b'=');
 
-- 
2.43.0


From b4f2f5a53ee747082366abdb43944d7f85084169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:15 +0000
Subject: [PATCH 06/59] fix: keep attachment ids in invoices out of the URI
 fragment

---
 invoice/src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 652c666..d1e5a8f 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -300,7 +300,11 @@ impl FromStr for XChainNet<Beneficiary> {
 
 impl Display for RgbInvoice {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        let amt = self.owned_state.to_string();
+        let amt = match self.owned_state {
+            // attachment id checksum can't be present, since it starts a URI fragment
+            InvoiceState::Attach(id) => format!("{id:#}"),
+            ref state => state.to_string(),
+        };
         if let Some(contract) = self.contract {
             let id = if f.alternate() {
                 contract.to_string().replace('-', "")
-- 
2.43.0


From 8a98df22a185c5438a33a640ad6c2fc10bf715b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:15 +0000
Subject: [PATCH 07/59] fix: keep the fractional part of approximate invoice
 amounts

---
 invoice/src/builder.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 17f2da3..f7e8c44 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -117,8 +117,17 @@ impl RgbInvoiceBuilder {
             return Err(self);
         }
         let coins = amount.floor();
-        let cents = amount - coins;
-        self.set_amount(coins as u64, cents as u64, precision)
+        let cents = (amount - coins) * precision.multiplier() as f64;
+        if coins.is_nan() || coins >= u64::MAX as f64 {
+            return Err(self);
+        }
+        match precision
+            .checked_convert(coins as u64)
+            .and_then(|amount| amount.checked_add(cents.round() as u64))
+        {
+            Some(amount) => Ok(self.set_amount_raw(amount)),
+            None => Err(self),
+        }
     }
 
     pub fn set_expiry_timestamp(mut self, expiry: i64) -> Self {
-- 
2.43.0


From 269de3d1bcbb54aa94bf58e82cf1cc2de716f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:15 +0000
Subject: [PATCH 08/59] fix: keep unspecified transport when no transports are
 added

---
 invoice/src/builder.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index f7e8c44..40447a5 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -171,12 +171,10 @@ impl RgbInvoiceBuilder {
     }
 
     pub fn add_transports_raw(
-        mut self,
+        self,
         transports: impl IntoIterator<Item = RgbTransport>,
     ) -> Self {
-        self.drop_unspecified_transport();
-        self.0.transports.extend(transports);
-        self
+        transports.into_iter().fold(self, Self::add_transport_raw)
     }
 
     pub fn finish(self) -> RgbInvoice { self.0 }
-- 
2.43.0


From 51bf5398d1fd249a241b0ed64527323bc5501e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:51 +0000
Subject: [PATCH 09/59] fix: read operation and assignment names of invoices

---
 invoice/src/parse.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index d1e5a8f..3fc873e 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -31,7 +31,7 @@ use indexmap::IndexMap;
 use invoice::{AddressPayload, UnknownNetwork};
 use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use rgb::{ContractId, SecretSeal};
-use strict_encoding::{InvalidRString, TypeName};
+use strict_encoding::{FieldName, InvalidRString, TypeName};
 
 use crate::invoice::{
     Beneficiary, ChainNet, InvoiceState, Pay2Vout, RgbInvoice, RgbTransport, XChainNet,
@@ -110,6 +110,9 @@ pub enum InvoiceParseError {
     /// invalid interface {0}.
     InvalidIface(String),
 
+    /// invalid operation or assignment name {0}.
+    InvalidName(String),
+
     /// invalid expiration timestamp {0}.
     InvalidExpiration(String),
 
@@ -322,6 +325,8 @@ impl Display for RgbInvoice {
         }
         if let Some(ref op) = self.operation {
             write!(f, "{op}/")?;
+        } else if self.assignment.is_some() {
+            write!(f, "{OMITTED}/")?;
         }
         if let Some(ref assignment_name) = self.assignment {
             write!(f, "{assignment_name}/")?;
@@ -400,9 +405,21 @@ impl FromStr for RgbInvoice {
             return Err(InvoiceParseError::ContractIdNoIface);
         }
 
-        let Some(assignment) = path.next() else {
+        let mut names = path.collect::<Vec<_>>();
+        let Some(assignment) = names.pop() else {
             return Err(InvoiceParseError::AssignmentMissed);
         };
+        let mut names = names.into_iter().map(|name| match name.as_str() {
+            OMITTED => Ok(None),
+            name => FieldName::try_from(name.to_owned())
+                .map(Some)
+                .map_err(|_| InvoiceParseError::InvalidName(name.to_owned())),
+        });
+        let operation = names.next().transpose()?.flatten();
+        let assignment_name = names.next().transpose()?.flatten();
+        if names.next().is_some() {
+            return Err(InvoiceParseError::Invalid);
+        }
         let (amount, beneficiary) = assignment
             .as_str()
             .split_once('+')
@@ -447,8 +464,8 @@ impl FromStr for RgbInvoice {
             transports,
             contract,
             iface,
-            operation: None,
-            assignment: None,
+            operation,
+            assignment: assignment_name,
             beneficiary,
             owned_state: value,
             expiry,
-- 
2.43.0


From 6c86e8241491dd3154c80939c12926a01d2f781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:22 +0000
Subject: [PATCH 10/59] fix: order tickers consistently with their
 case-insensitive equality

---
 src/stl/specs.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/stl/specs.rs b/src/stl/specs.rs
index f51afc5..e0b18bb 100644
--- a/src/stl/specs.rs
+++ b/src/stl/specs.rs
@@ -21,6 +21,7 @@
 
 #![allow(unused_braces)] // caused by rustc unable to understand strict_dumb
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::FromStr;
@@ -79,7 +80,7 @@ pub struct Article(RString<Alpha, AlphaNum, 1, 32>);
 impl_ident_type!(Article);
 impl_ident_subtype!(Article);
 
-#[derive(Wrapper, Clone, Ord, PartialOrd, Eq, From)]
+#[derive(Wrapper, Clone, Eq, From)]
 #[wrapper(Deref, Display, FromStr)]
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
 #[strict_type(lib = LIB_NAME_RGB_CONTRACT, dumb = { Ticker::from("DUMB") })]
@@ -98,6 +99,18 @@ impl PartialEq for Ticker {
     }
 }
 
+impl PartialOrd for Ticker {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
+}
+
+impl Ord for Ticker {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_str()
+            .to_uppercase()
+            .cmp(&other.as_str().to_uppercase())
+    }
+}
+
 impl Hash for Ticker {
     fn hash<H: Hasher>(&self, state: &mut H) { self.as_str().to_uppercase().hash(state) }
 }
-- 
2.43.0


From 372b7b6ac4315ca86bd5fa448166e6ab0ad77bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:21 +0000
Subject: [PATCH 11/59] fix: put rights into an operation in a defined order
 and without losing repeated ones

---
 src/interface/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb8a01c..7336f4c 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -21,7 +21,7 @@
 
 #![allow(clippy::result_large_err)]
 
-use std::collections::{BTreeMap, HashSet};
+use std::collections::BTreeMap;
 
 use amplify::confinement::{Confined, SmallOrdSet, TinyOrdMap, U16};
 use amplify::{confinement, Wrapper};
@@ -833,7 +833,7 @@ pub struct OperationBuilder<Seal: ExposedSeal> {
 
     global: GlobalState,
     meta: Metadata,
-    rights: TinyOrdMap<AssignmentType, Confined<HashSet<BuilderSeal<Seal>>, 1, U16>>,
+    rights: TinyOrdMap<AssignmentType, Confined<Vec<BuilderSeal<Seal>>, 1, U16>>,
     fungible:
         TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedValue>, 1, U16>>,
     data: TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedData>, 1, U16>>,
@@ -1393,6 +1393,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_rights = self.rights.into_iter().map(|(id, vec)| {
+            let mut vec = vec.release();
+            vec.sort();
             let vec_data = vec.into_iter().map(|seal| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
-- 
2.43.0


From 564d42bea2e47da9adc7d8ba6a1b845cad3764d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:40 +0000
Subject: [PATCH 12/59] fix: keep every state assigned to the same seal by an
 operation builder

---
 src/interface/builder.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 7336f4c..cc859e5 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -21,7 +21,6 @@
 
 #![allow(clippy::result_large_err)]
 
-use std::collections::BTreeMap;
 
 use amplify::confinement::{Confined, SmallOrdSet, TinyOrdMap, U16};
 use amplify::{confinement, Wrapper};
@@ -835,10 +834,10 @@ pub struct OperationBuilder<Seal: ExposedSeal> {
     meta: Metadata,
     rights: TinyOrdMap<AssignmentType, Confined<Vec<BuilderSeal<Seal>>, 1, U16>>,
     fungible:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedValue>, 1, U16>>,
-    data: TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedData>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedValue)>, 1, U16>>,
+    data: TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedData)>, 1, U16>>,
     attachments:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedAttach>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedAttach)>, 1, U16>>,
     // TODO: add valencies
     types: TypeSystem,
 }
@@ -1179,7 +1178,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.fungible.get_mut(&type_id) {
             Some(assignments) => {
-                assignments.insert(seal, state)?;
+                assignments.push((seal, state))?;
             }
             None => {
                 self.fungible
@@ -1243,7 +1242,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.push((seal, state))?;
                 }
                 None => {
                     self.data.insert(type_id, Confined::with((seal, state)))?;
@@ -1311,7 +1310,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.push((seal, state))?;
                 }
                 None => {
                     self.attachments
@@ -1329,6 +1328,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
     ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
+            let mut vec = vec.release();
+            vec.sort_by_key(|(seal, _)| *seal);
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
                 .into_iter()
@@ -1376,6 +1377,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state)
         });
         let owned_data = self.data.into_iter().map(|(id, vec)| {
+            let mut vec = vec.release();
+            vec.sort_by_key(|(seal, _)| *seal);
             let vec_data = vec.into_iter().map(|(seal, value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
@@ -1412,6 +1415,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_attachments = self.attachments.into_iter().map(|(id, vec)| {
+            let mut vec = vec.release();
+            vec.sort_by_key(|(seal, _)| *seal);
             let vec_data = vec.into_iter().map(|(seal, value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
-- 
2.43.0


From 6982874104abfca7267370a62fb1927fbb7c17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:40 +0000
Subject: [PATCH 13/59] fix: put metadata added to a builder into the operation

---
 src/interface/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index cc859e5..3317138 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -381,6 +381,7 @@ impl ContractBuilder {
     }
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
+        let metadata = self.builder.meta.clone();
         let (schema, iface, iimpl, global, assignments, types, asset_tags) =
             self.builder.complete(None);
 
@@ -392,7 +393,7 @@ impl ContractBuilder {
             testnet: self.testnet,
             alt_layers1: self.alt_layers1,
             asset_tags,
-            metadata: empty!(),
+            metadata,
             globals: global,
             assignments,
             valencies: none!(),
@@ -799,6 +800,7 @@ impl TransitionBuilder {
     pub fn has_inputs(&self) -> bool { !self.inputs.is_empty() }
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
+        let metadata = self.builder.meta.clone();
         let (_, _, _, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
 
         let transition = Transition {
@@ -806,7 +808,7 @@ impl TransitionBuilder {
             contract_id: self.contract_id,
             nonce: self.nonce,
             transition_type: self.transition_type,
-            metadata: empty!(),
+            metadata,
             globals: global,
             inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),
             assignments,
-- 
2.43.0


From f334eeab8f3b2f1454b2684135ebbbad2e2f98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:56 +0000
Subject: [PATCH 14/59] fix: report global state in consensus order, without
 archived items and up to the limit

---
 src/persistence/memory.rs | 104 +++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 64 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4126daa..4012d03 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -20,12 +20,11 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::cmp::Ordering;
-use std::collections::{BTreeMap, BTreeSet, HashMap};
+use std::collections::{BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
+use std::mem;
 use std::num::NonZeroU32;
-use std::{iter, mem};
 
 use aluvm::library::{Lib, LibId};
 use amplify::confinement::{
@@ -876,55 +875,29 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
         &self,
         ty: GlobalStateType,
     ) -> Result<GlobalContractState<impl GlobalStateIter>, UnknownGlobalStateType> {
-        type Src<'a> = &'a BTreeMap<GlobalOut, DataState>;
-        type FilteredIter<'a> = Box<dyn Iterator<Item = (GlobalOrd, &'a DataState)> + 'a>;
         struct Iter<'a> {
-            src: Src<'a>,
-            iter: FilteredIter<'a>,
-            last: Option<(GlobalOrd, &'a DataState)>,
+            /// Valid state in the consensus order, not exceeding the limit.
+            items: Vec<(GlobalOrd, &'a DataState)>,
             depth: u24,
-            constructor: Box<dyn Fn(Src<'a>) -> FilteredIter<'a> + 'a>,
-        }
-        impl<'a> Iter<'a> {
-            fn swap(&mut self) -> FilteredIter<'a> {
-                let mut iter = (self.constructor)(self.src);
-                mem::swap(&mut iter, &mut self.iter);
-                iter
-            }
         }
         impl<'a> GlobalStateIter for Iter<'a> {
             type Data = &'a DataState;
             fn size(&mut self) -> u24 {
-                let iter = self.swap();
-                // TODO: Consuming iterator just to count items is highly inefficient, but I do
-                //       not know any other way of computing this value
-                let size = iter.count();
-                u24::try_from(size as u32).expect("iterator size must fit u24 due to `take` limit")
+                u24::try_from(self.items.len() as u32)
+                    .expect("iterator size must fit u24 due to the state limit")
             }
             fn prev(&mut self) -> Option<(GlobalOrd, Self::Data)> {
-                self.last = self.iter.next();
+                if self.depth.to_usize() >= self.items.len() {
+                    return None;
+                }
                 self.depth += u24::ONE;
                 self.last()
             }
-            fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last }
-            fn reset(&mut self, depth: u24) {
-                match self.depth.cmp(&depth) {
-                    Ordering::Less => {
-                        let mut iter = Box::new(iter::empty()) as FilteredIter;
-                        mem::swap(&mut self.iter, &mut iter);
-                        self.iter = Box::new(iter.skip(depth.to_usize() - depth.to_usize()))
-                    }
-                    Ordering::Equal => {}
-                    Ordering::Greater => {
-                        let iter = self.swap();
-                        self.iter = Box::new(iter.skip(depth.to_usize()));
-                    }
-                }
+            fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> {
+                self.items.get(self.depth.to_usize().checked_sub(1)?).copied()
             }
+            fn reset(&mut self, depth: u24) { self.depth = depth }
         }
-        // We need this due to the limitations of the rust compiler to enforce lifetimes
-        // on closures
-        fn constrained<'a, F: Fn(Src<'a>) -> FilteredIter<'a>>(f: F) -> F { f }
 
         let state = self
             .unfiltered
@@ -933,33 +906,36 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             .get(&ty)
             .ok_or(UnknownGlobalStateType(ty))?;
 
-        let constructor = constrained(move |src: Src<'_>| -> FilteredIter<'_> {
-            Box::new(
-                src.iter()
-                    .rev()
-                    .filter_map(|(out, data)| {
-                        let ord = match out.op_witness {
-                            OpWitness::Genesis => GlobalOrd::genesis(out.index),
-                            OpWitness::Transition(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                            OpWitness::Extension(id, ty) => {
-                                let ord = self.filter.get(&id)?;
-                                GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
-                            }
-                        };
-                        Some((ord, data))
-                    })
-                    .take(state.limit.to_usize()),
-            )
-        });
+        let mut items = state
+            .known
+            .iter()
+            .filter_map(|(out, data)| {
+                let ord = match out.op_witness {
+                    OpWitness::Genesis => GlobalOrd::genesis(out.index),
+                    OpWitness::Transition(id, ty) => {
+                        let ord = self.filter.get(&id)?;
+                        GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
+                    }
+                    OpWitness::Extension(id, ty) => {
+                        let ord = self.filter.get(&id)?;
+                        GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
+                    }
+                };
+                (!ord.op_ord.is_archived()).then_some((ord, (out.opid, out.index), data))
+            })
+            .collect::<Vec<_>>();
+        items.sort_by_key(|(ord, _, _)| *ord);
+        // The same operation may be known under several witness transactions
+        let mut known = BTreeSet::new();
+        items.retain(|(_, out, _)| known.insert(*out));
+        let outdated = items.len().saturating_sub(state.limit.to_usize());
         let iter = Iter {
-            src: state.known.as_unconfined(),
-            iter: constructor(state.known.as_unconfined()),
+            items: items
+                .into_iter()
+                .skip(outdated)
+                .map(|(ord, _, data)| (ord, data))
+                .collect(),
             depth: u24::ZERO,
-            last: None,
-            constructor: Box::new(constructor),
         };
         Ok(GlobalContractState::new(iter))
     }
-- 
2.43.0


From 483d257ddd1577de25113ab4f3df98b6ca8b6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 15/59] fix: update operation ids when the priority of a batch
 is changed

---
 src/containers/partials.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/containers/partials.rs b/src/containers/partials.rs
index 8bdf33d..6a99ac5 100644
--- a/src/containers/partials.rs
+++ b/src/containers/partials.rs
@@ -244,14 +244,18 @@ impl Batch {
     }
 
     pub fn set_priority(&mut self, priority: u64) {
-        self.main.first.transition.nonce = priority;
-        if let Some(info) = &mut self.main.second {
+        fn set(info: &mut TransitionInfo, priority: u64) {
             info.transition.nonce = priority;
+            info.id = info.transition.id();
+        }
+        set(&mut self.main.first, priority);
+        if let Some(info) = &mut self.main.second {
+            set(info, priority);
         }
         for info in &mut self.blanks {
-            info.first.transition.nonce = priority;
+            set(&mut info.first, priority);
             if let Some(info) = &mut info.second {
-                info.transition.nonce = priority;
+                set(info, priority);
             }
         }
     }
-- 
2.43.0


From 56b2f826a003223f7886a306ba8763c19e568e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 16/59] fix: list each contract assigning state to outputs only
 once

---
 src/persistence/memory.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4012d03..bde6934 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1254,19 +1254,13 @@ impl IndexReadProvider for MemIndex {
         Ok(self
             .contract_index
             .iter()
-            .flat_map(move |(contract_id, index)| {
-                outpoints.clone().into_iter().filter_map(|outpoint| {
-                    if index
-                        .outpoint_opouts
-                        .keys()
-                        .any(|seal| seal.to_outpoint() == outpoint)
-                    {
-                        Some(*contract_id)
-                    } else {
-                        None
-                    }
-                })
-            }))
+            .filter(move |(_, index)| {
+                index
+                    .outpoint_opouts
+                    .keys()
+                    .any(|seal| outpoints.contains(&seal.to_outpoint()))
+            })
+            .map(|(contract_id, _)| *contract_id))
     }
 
     fn public_opouts(
-- 
2.43.0


From cd6f45c6dc1b351d4237befed61b050ae48c15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 17/59] fix: find operation outputs for all seals defined over
 the same output

---
 src/persistence/memory.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index bde6934..d2a1a7c 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1285,13 +1285,17 @@ impl IndexReadProvider for MemIndex {
             .ok_or(IndexInconsistency::ContractAbsent(contract_id))?;
         let mut opouts = BTreeSet::new();
         for output in outpoints.into_iter().map(|o| o.into()) {
-            let set = index
+            // The same output may be referenced by seals with different closing methods
+            let mut sets = index
                 .outpoint_opouts
                 .iter()
-                .find(|(seal, _)| seal.to_outpoint() == output)
-                .map(|(_, set)| set.to_unconfined())
-                .ok_or(IndexInconsistency::OutpointUnknown(output, contract_id))?;
-            opouts.extend(set)
+                .filter(|(seal, _)| seal.to_outpoint() == output)
+                .map(|(_, set)| set)
+                .peekable();
+            if sets.peek().is_none() {
+                return Err(IndexInconsistency::OutpointUnknown(output, contract_id).into());
+            }
+            opouts.extend(sets.flatten().copied())
         }
         Ok(opouts)
     }
-- 
2.43.0


From b3cf68d2e008e6364c18d2e703b9b4746786a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 18/59] fix: report an unknown transition name as an error
 instead of a panic

---
 src/persistence/stash.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index c42764e..8937bcd 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -47,7 +47,7 @@ use crate::containers::{
     SigBlob, Supplement, TrustLevel, WitnessBundle,
 };
 use crate::interface::{
-    ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
+    BuilderError, ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
 };
 use crate::persistence::{ContractIfaceError, StoreTransaction};
 use crate::{MergeReveal, MergeRevealError, SecretSeal, LIB_NAME_RGB_STD};
@@ -160,6 +160,10 @@ pub enum StashDataError {
     #[from]
     #[display(inner)]
     NoAbstractIface(ContractIfaceError),
+
+    #[from]
+    #[display(inner)]
+    Builder(BuilderError),
 }
 
 #[derive(Clone, Eq, PartialEq, Debug)]
@@ -377,7 +381,7 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         }
-        .expect("internal inconsistency");
+        .map_err(StashDataError::from)?;
 
         for (assignment_type, asset_tag) in genesis.asset_tags.iter() {
             builder = builder
-- 
2.43.0


From 926f8ee42f0508d1ccd1268f94474d3a03699f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 19/59] fix: refuse invoices for unsupported state instead of a
 panic

---
 src/persistence/stock.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b43427e..0b4f351 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1142,11 +1142,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             },
-            _ => {
-                todo!(
-                    "only PersistedState::Amount and PersistedState::Allocation are currently \
-                     supported"
-                )
+            // Only amounts and allocations are currently supported
+            InvoiceState::Void | InvoiceState::Attach(_) => {
+                return Err(BuilderError::InvalidStateType(assignment_id).into());
             }
         }
 
-- 
2.43.0


From 87ba1506e6f19c84501319639136aff4d808c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 20/59] fix: keep state of the same type which is not requested
 by an invoice

---
 src/persistence/stock.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 0b4f351..2eaa31b 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1045,24 +1045,32 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 } else {
                     alt_builder = alt_builder.add_input(opout, state.clone())?;
                 }
-                if opout.ty != assignment_id {
-                    let seal = output_for_assignment(contract_id, opout.ty)?;
-                    state.update_blinding(pedersen_blinder(contract_id, assignment_id));
-                    if output.method() == method {
-                        main_builder = main_builder.add_owned_state_raw(opout.ty, seal, state)?;
-                    } else {
-                        alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                match state {
+                    PersistedState::Amount(value, _, _) if opout.ty == assignment_id => {
+                        sum_inputs += value;
+                        if output.method() != method {
+                            sum_alt += value;
+                        }
                     }
-                } else if let PersistedState::Amount(value, _, _) = state {
-                    sum_inputs += value;
-                    if output.method() != method {
-                        sum_alt += value;
+                    PersistedState::Data(ref value, _)
+                        if opout.ty == assignment_id
+                            && data_inputs.is_empty()
+                            && lookup_state.as_ref() == Some(value) =>
+                    {
+                        data_main = output.method() == method;
+                        data_inputs.push(value.clone());
                     }
-                } else if let PersistedState::Data(value, _) = state {
-                    if lookup_state.as_ref() == Some(&value) && output.method() != method {
-                        data_main = false;
+                    // All state which is not requested by the invoice must be kept
+                    _ => {
+                        let seal = output_for_assignment(contract_id, opout.ty)?;
+                        state.update_blinding(pedersen_blinder(contract_id, assignment_id));
+                        if output.method() == method {
+                            main_builder =
+                                main_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                        } else {
+                            alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
+                        }
                     }
-                    data_inputs.push(value);
                 }
             }
         }
-- 
2.43.0


From a677409f98ad3aec6c586136446c183697334030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 21/59] fix: refuse payments spending more than an amount may
 hold

---
 src/persistence/stock.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 2eaa31b..c4cb1c9 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -239,6 +239,10 @@ pub enum ComposeError {
     /// transition input limit.
     TooManyInputs,
 
+    /// the spent UTXOs contain more state of type {0} than can be represented
+    /// by a single amount.
+    AmountOverflow(AssignmentType),
+
     #[from]
     #[display(inner)]
     Transition(TransitionInfoError),
@@ -1047,7 +1051,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 }
                 match state {
                     PersistedState::Amount(value, _, _) if opout.ty == assignment_id => {
-                        sum_inputs += value;
+                        sum_inputs = sum_inputs
+                            .checked_add(value)
+                            .ok_or(ComposeError::AmountOverflow(assignment_id))?;
                         if output.method() != method {
                             sum_alt += value;
                         }
-- 
2.43.0


From af462ce8be1f6a5874c45e30f6e0c902f718bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:48 +0000
Subject: [PATCH 22/59] fix: do not panic when a contract has no valid state on
 spent outputs

---
 src/persistence/stock.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index c4cb1c9..3ee2125 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1207,6 +1207,11 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 }
             }
 
+            // The contract may have no valid state on the outputs
+            if !blank_builder_tapret.has_inputs() && !blank_builder_opret.has_inputs() {
+                continue;
+            }
+
             let mut dicho = vec![];
             for (blank_builder, outputs) in
                 [(blank_builder_tapret, outputs_tapret), (blank_builder_opret, outputs_opret)]
-- 
2.43.0


From 6813d381e35f8bd08474d843a109c9e90bdc13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:17 +0000
Subject: [PATCH 23/59] fix: do not panic when several states are assigned to
 the same secret seal

---
 src/persistence/stock.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 3ee2125..702e799 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -789,8 +789,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 for index in 0..typed_assignments.len_u16() {
                     let seal = typed_assignments.to_confidential_seals()[index as usize];
                     if secret_seal == Some(seal) {
-                        let res = terminals.insert(bundle_id, seal);
-                        assert_eq!(res, None);
+                        // The same seal may be assigned multiple states
+                        terminals.insert(bundle_id, seal);
                     }
                 }
             }
-- 
2.43.0


From 4204378d6f0797d6048f1fd9ca727a560f7657c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:17 +0000
Subject: [PATCH 24/59] fix: do not put operations of other contracts into a
 consignment

---
 src/persistence/stock.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 702e799..3105bfd 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -781,6 +781,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
 
             let transition = self.transition(opout.op)?;
+            // The same secret seal may be used by other contracts
+            if transition.contract_id != contract_id {
+                continue;
+            }
             transitions.insert(opout.op, transition.clone());
 
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
-- 
2.43.0


From 6c21d20e4d5602d7f200c3a5ad346b48455188a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:17 +0000
Subject: [PATCH 25/59] fix: visit each operation only once when collecting a
 contract history

---
 src/persistence/stock.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 3105bfd..79c4cb9 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -813,6 +813,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             if id == contract_id {
                 continue; // we skip genesis since it will be present anywhere
             }
+            if transitions.contains_key(&id) {
+                continue; // otherwise each path through the history is walked separately
+            }
             let transition = self.transition(id)?;
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
             transitions.insert(id, transition.clone());
-- 
2.43.0


From f57e46687c251d2240f5243de87956a6eae8a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:23 +0000
Subject: [PATCH 26/59] fix: do not count witnesses which failed to update as
 succeeded

---
 src/persistence/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index d2a1a7c..6f0ca3d 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -663,12 +663,14 @@ impl StateWriteProvider for MemState {
                 continue;
             }
             match resolver.resolve_pub_witness_ord(*id) {
-                Ok(new) => *ord = new,
+                Ok(new) => {
+                    *ord = new;
+                    succeeded += 1;
+                }
                 Err(err) => {
                     failed.insert(*id, err.to_string());
                 }
             }
-            succeeded += 1;
         }
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
-- 
2.43.0


From fb6bc2c4206d3bef21df75e096856c2a5ab66be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:59 +0000
Subject: [PATCH 27/59] fix: update witness of a known state when its
 transaction is replaced

---
 src/persistence/memory.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 6f0ca3d..969fdf6 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -802,12 +802,16 @@ impl MemContractState {
          */
 
         let witness_id = op.witness_id();
+        let is_valid = match op {
+            OrdOpRef::Genesis(_) => true,
+            OrdOpRef::Transition(_, _, ord) | OrdOpRef::Extension(_, _, ord) => ord.is_valid(),
+        };
         match op.assignments() {
             AssignmentsRef::Genesis(assignments) => {
-                self.add_assignments(witness_id, opid, assignments)
+                self.add_assignments(witness_id, is_valid, opid, assignments)
             }
             AssignmentsRef::Graph(assignments) => {
-                self.add_assignments(witness_id, opid, assignments)
+                self.add_assignments(witness_id, is_valid, opid, assignments)
             }
         }
     }
@@ -815,6 +819,7 @@ impl MemContractState {
     fn add_assignments<Seal: ExposedSeal>(
         &mut self,
         witness_id: Option<XWitnessId>,
+        is_valid: bool,
         opid: OpId,
         assignments: &Assignments<Seal>,
     ) {
@@ -824,6 +829,7 @@ impl MemContractState {
             opid: OpId,
             ty: AssignmentType,
             witness_id: Option<XWitnessId>,
+            is_valid: bool,
         ) {
             for (no, seal, state) in assignments
                 .iter()
@@ -836,6 +842,13 @@ impl MemContractState {
                     }
                     None => OutputAssignment::with_no_witness(seal, state, opid, ty, no as u16),
                 };
+                // The same state may be already known under a different witness transaction,
+                // which is not valid anymore
+                if is_valid {
+                    contract_state
+                        .remove(&assigned_state)
+                        .expect("collection allows zero elements");
+                }
                 contract_state
                     .push(assigned_state)
                     .expect("contract state exceeded 2^32 items, which is unrealistic");
@@ -845,16 +858,16 @@ impl MemContractState {
         for (ty, assignments) in assignments.iter() {
             match assignments {
                 TypedAssigns::Declarative(assignments) => {
-                    process(&mut self.rights, assignments, opid, *ty, witness_id)
+                    process(&mut self.rights, assignments, opid, *ty, witness_id, is_valid)
                 }
                 TypedAssigns::Fungible(assignments) => {
-                    process(&mut self.fungibles, assignments, opid, *ty, witness_id)
+                    process(&mut self.fungibles, assignments, opid, *ty, witness_id, is_valid)
                 }
                 TypedAssigns::Structured(assignments) => {
-                    process(&mut self.data, assignments, opid, *ty, witness_id)
+                    process(&mut self.data, assignments, opid, *ty, witness_id, is_valid)
                 }
                 TypedAssigns::Attachment(assignments) => {
-                    process(&mut self.attach, assignments, opid, *ty, witness_id)
+                    process(&mut self.attach, assignments, opid, *ty, witness_id, is_valid)
                 }
             }
         }
-- 
2.43.0


From 9b3046ba4816b02e0c51a15798b8dc563766c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:07 +0000
Subject: [PATCH 28/59] fix: compose the same payment for the same
 deterministic arguments

---
 src/persistence/stock.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 79c4cb9..60c9512 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1042,9 +1042,13 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 None
             };
 
-        for (output, list) in
-            self.contract_assignments_for(contract_id, prev_outputs.iter().copied())?
-        {
+        // The order of the state affects operation ids and must be deterministic
+        let assignments = self
+            .contract_assignments_for(contract_id, prev_outputs.iter().copied())?
+            .into_iter()
+            .map(|(output, list)| (output, BTreeMap::from_iter(list)))
+            .collect::<BTreeMap<_, _>>();
+        for (output, list) in assignments {
             if output.method() == method {
                 main_inputs.push(output)
             } else {
@@ -1172,7 +1176,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         // 3. Prepare other transitions
         // Enumerate state
         let mut spent_state =
-            HashMap::<ContractId, HashMap<XOutputSeal, HashMap<Opout, PersistedState>>>::new();
+            BTreeMap::<ContractId, BTreeMap<XOutputSeal, BTreeMap<Opout, PersistedState>>>::new();
         for id in self.contracts_assigning(prev_outputs.iter().copied())? {
             // Skip current contract
             if id == contract_id {
-- 
2.43.0


From 64c9ee9a0482c41d07785a21fb904eaf29808d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:54 +0000
Subject: [PATCH 29/59] fix: do not panic on history of contracts with several
 types of fungible state

---
 src/interface/contract.rs | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 2709a05..1652ad3 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use invoice::{Allocation, Amount};
 use rgb::{
@@ -134,6 +134,17 @@ fn reduce_to_ty(allocations: impl IntoIterator<Item = OwnedAllocation>) -> Assig
         .expect("empty list of allocations")
 }
 
+/// Fungible state of different types can't be summed up
+fn group_by_ty(
+    allocations: HashSet<OwnedAllocation>,
+) -> BTreeMap<AssignmentType, HashSet<OwnedAllocation>> {
+    let mut groups = BTreeMap::<_, HashSet<_>>::new();
+    for a in allocations {
+        groups.entry(a.opout.ty).or_default().insert(a);
+    }
+    groups
+}
+
 impl ContractOp {
     fn non_fungible_genesis(
         our_allocations: HashSet<OwnedAllocation>,
@@ -429,7 +440,11 @@ impl<S: ContractStateRead> ContractIface<S> {
         // add allocations with no witness to the beginning of the history
         if let Some(genesis_allocations) = allocations_our_outpoint.remove(&None) {
             if T::IS_FUNGIBLE {
-                ops.push(ContractOp::fungible_genesis(genesis_allocations));
+                ops.extend(
+                    group_by_ty(genesis_allocations)
+                        .into_values()
+                        .map(ContractOp::fungible_genesis),
+                );
             } else {
                 ops.extend(ContractOp::non_fungible_genesis(genesis_allocations));
             }
@@ -455,7 +470,11 @@ impl<S: ContractStateRead> ContractIface<S> {
                         continue;
                     }
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            group_by_ty(ext_allocations)
+                                .into_values()
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -463,7 +482,11 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // the same as above, but the payment has no change
                 (None, Some(ext_allocations)) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            group_by_ty(ext_allocations)
+                                .into_values()
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -472,7 +495,11 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // this is an incoming payment to us.
                 (Some(our_allocations), None) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_received(witness_info, our_allocations))
+                        ops.extend(
+                            group_by_ty(our_allocations)
+                                .into_values()
+                                .map(|a| ContractOp::fungible_received(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                     }
-- 
2.43.0


From 8d20ef457c29cc547c8c981421001f7fe507b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:54 +0000
Subject: [PATCH 30/59] fix: do not panic on history when a witness filter
 includes genesis state

---
 src/interface/contract.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 1652ad3..3889917 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -418,10 +418,9 @@ impl<S: ContractStateRead> ContractIface<S> {
         // get all allocations which has a witness transaction belonging to this wallet
         let mut allocations_our_witness = state(&self.state)
             .filter(move |outp| filter_witnesses.should_include(outp.seal, outp.witness))
-            .fold(HashMap::<_, HashSet<_>>::new(), |mut map, a| {
-                let witness = a.witness.expect(
-                    "all empty witnesses must be already filtered out by wallet.filter_witness()",
-                );
+            // genesis allocations have no witness transaction
+            .filter_map(|a| a.witness.map(|witness| (witness, a)))
+            .fold(HashMap::<_, HashSet<_>>::new(), |mut map, (witness, a)| {
                 map.entry(witness)
                     .or_default()
                     .insert(a.clone().transmute::<AllocatedState>());
-- 
2.43.0


From 3483b7d5497aa71e8a7f0b39172a4be7e03b2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:37 +0000
Subject: [PATCH 31/59] fix: restore the previous data when a change of a stock
 is refused or not stored

---
 src/persistence/memory.rs | 54 ++++++++++++++++++++++++++++++++++-----
 src/persistence/stash.rs  |  3 ++-
 src/persistence/stock.rs  | 14 +++++-----
 3 files changed, 56 insertions(+), 15 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 969fdf6..c28bf16 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -87,6 +87,10 @@ pub struct MemStash {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Copy of the data made when the last transaction has begun.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     schemata: TinyOrdMap<SchemaId, SchemaIfaces>,
     ifaces: TinyOrdMap<IfaceId, Iface>,
@@ -110,6 +114,7 @@ impl MemStash {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            snapshot: none!(),
             schemata: empty!(),
             ifaces: empty!(),
             geneses: empty!(),
@@ -131,6 +136,7 @@ impl CloneNoPersistence for MemStash {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             schemata: self.schemata.clone(),
             ifaces: self.ifaces.clone(),
             geneses: self.geneses.clone(),
@@ -162,12 +168,19 @@ impl StoreTransaction for MemStash {
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
         self.mark_dirty();
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StashProvider for MemStash {}
@@ -491,6 +504,10 @@ pub struct MemState {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Copy of the data made when the last transaction has begun.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     witnesses: LargeOrdMap<XWitnessId, WitnessOrd>,
     contracts: TinyOrdMap<ContractId, MemContractState>,
@@ -503,6 +520,7 @@ impl MemState {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            snapshot: none!(),
             witnesses: empty!(),
             contracts: empty!(),
         }
@@ -513,6 +531,7 @@ impl CloneNoPersistence for MemState {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             witnesses: self.witnesses.clone(),
             contracts: self.contracts.clone(),
         }
@@ -533,12 +552,19 @@ impl StoreTransaction for MemState {
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
         self.mark_dirty();
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StateProvider for MemState {}
@@ -675,7 +701,8 @@ impl StateWriteProvider for MemState {
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
         mem::swap(&mut self.witnesses, &mut witnesses);
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(UpdateRes { succeeded, failed })
     }
 }
@@ -1198,6 +1225,10 @@ pub struct MemIndex {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Copy of the data made when the last transaction has begun.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    snapshot: Option<Box<Self>>,
 
     op_bundle_index: MediumOrdMap<OpId, BundleId>,
     bundle_contract_index: MediumOrdMap<BundleId, ContractId>,
@@ -1213,6 +1244,7 @@ impl MemIndex {
     pub fn in_memory() -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             op_bundle_index: empty!(),
             bundle_contract_index: empty!(),
             bundle_witness_index: empty!(),
@@ -1226,6 +1258,7 @@ impl CloneNoPersistence for MemIndex {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            snapshot: None,
             op_bundle_index: self.op_bundle_index.clone(),
             bundle_contract_index: self.bundle_contract_index.clone(),
             bundle_witness_index: self.bundle_witness_index.clone(),
@@ -1249,12 +1282,19 @@ impl StoreTransaction for MemIndex {
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
         self.mark_dirty();
+        self.snapshot = Some(Box::new(self.clone_no_persistence()));
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
-    #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(snapshot) = self.snapshot.take() {
+            let persistence = self.persistence.take();
+            *self = *snapshot;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl IndexProvider for MemIndex {}
diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 8937bcd..01b0c3f 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -686,7 +686,8 @@ impl<P: StashProvider> Stash<P> {
             .add_secret_seal(seal)
             .inspect_err(|_| self.rollback_transaction())
             .map_err(StashError::WriteProvider)?;
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(seal)
     }
 }
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 60c9512..d7f78eb 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1285,15 +1285,13 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         self.state.begin_transaction()?;
         self.stash
             .begin_transaction()
-            .inspect_err(|_| self.stash.rollback_transaction())?;
+            .inspect_err(|_| self.state.rollback_transaction())?;
         self.index.begin_transaction().inspect_err(|_| {
             self.state.rollback_transaction();
             self.stash.rollback_transaction();
         })?;
-        f(&mut self.stash, &mut self.state, &mut self.index)?;
-        self.index
-            .commit_transaction()
-            .map_err(StockError::from)
+        f(&mut self.stash, &mut self.state, &mut self.index)
+            .and_then(|_| self.index.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.state.commit_transaction().map_err(StockError::from))
             .and_then(|_| self.stash.commit_transaction().map_err(StockError::from))
             .inspect_err(|_| {
@@ -1306,8 +1304,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
     pub fn import_kit(&mut self, kit: ValidKit) -> Result<validation::Status, StockError<S, H, P>> {
         let (kit, status) = kit.split();
         self.stash.begin_transaction()?;
-        self.stash.consume_kit(kit)?;
-        self.stash.commit_transaction()?;
+        self.stash
+            .consume_kit(kit)
+            .and_then(|_| self.stash.commit_transaction())
+            .inspect_err(|_| self.stash.rollback_transaction())?;
         Ok(status)
     }
 
-- 
2.43.0


From 07f58bb0fe7628ccc1148218ad89b43eb2e565fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:37 +0000
Subject: [PATCH 32/59] fix: store a changed stock on request when it is not
 saved automatically

---
 src/persistence/memory.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index c28bf16..5e1fa28 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -161,6 +161,8 @@ impl Persisting for MemStash {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemStash {
@@ -172,7 +174,12 @@ impl StoreTransaction for MemStash {
         Ok(())
     }
     #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         if let Some(snapshot) = self.snapshot.take() {
             let persistence = self.persistence.take();
@@ -545,6 +552,8 @@ impl Persisting for MemState {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemState {
@@ -556,7 +565,12 @@ impl StoreTransaction for MemState {
         Ok(())
     }
     #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         if let Some(snapshot) = self.snapshot.take() {
             let persistence = self.persistence.take();
@@ -1275,6 +1289,8 @@ impl Persisting for MemIndex {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemIndex {
@@ -1286,7 +1302,12 @@ impl StoreTransaction for MemIndex {
         Ok(())
     }
     #[inline]
-    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
+    fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        if self.is_autosave() {
+            self.store()?;
+        }
+        Ok(())
+    }
     fn rollback_transaction(&mut self) {
         if let Some(snapshot) = self.snapshot.take() {
             let persistence = self.persistence.take();
-- 
2.43.0


From 6bd08229ad2c535f0069b51ae0b4d8e94c17cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:37 +0000
Subject: [PATCH 33/59] fix: merge a known witness transaction with its id

---
 src/containers/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index 2c7c167..b608044 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -154,7 +154,7 @@ impl PubWitness {
     pub fn merge_reveal(self, other: Self) -> Result<Self, MergeRevealError> {
         match (self, other) {
             (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
-            (Self::Txid(txid), Self::Tx(tx)) | (Self::Txid(txid), Self::Tx(tx))
+            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                 if txid == tx.txid() =>
             {
                 Ok(Self::Tx(tx))
-- 
2.43.0


From a62b6302c2287e3f8f0b9cd9e433c0ba5cdd1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:37 +0000
Subject: [PATCH 34/59] fix: keep transitions known only from the other bundle
 when merging bundles

---
 src/contract/merge_reveal.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index b662f5a..9b4c8e5 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -220,10 +220,11 @@ impl MergeReveal for TransitionBundle {
 
         let mut self_transitions = self.known_transitions.release();
         for (opid, other_transition) in other.known_transitions {
-            if let Some(mut transition) = self_transitions.remove(&opid) {
-                transition = transition.merge_reveal(other_transition)?;
-                self_transitions.insert(opid, transition);
-            }
+            let transition = match self_transitions.remove(&opid) {
+                Some(transition) => transition.merge_reveal(other_transition)?,
+                None => other_transition,
+            };
+            self_transitions.insert(opid, transition);
         }
         self.known_transitions = Confined::from_checked(self_transitions);
 
-- 
2.43.0


From b990e8e63a431ecd96e3e87ef678a199b6b3ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:05 +0000
Subject: [PATCH 35/59] fix: refuse to merge different bundles instead of a
 debug-only assertion

---
 src/contract/merge_reveal.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index 9b4c8e5..d35b46d 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -49,6 +49,9 @@ pub enum MergeRevealError {
     /// anchors in anchored bundle are not equal for bundle {0}.
     AnchorsNonEqual(BundleId),
 
+    /// bundles {0} and {1} are different and can't be merge-revealed.
+    BundleMismatch(BundleId, BundleId),
+
     /// the merged bundles contain more transitions than inputs.
     InsufficientInputs,
 
@@ -216,7 +219,11 @@ impl<Seal: ExposedSeal> MergeReveal for Assignments<Seal> {
 
 impl MergeReveal for TransitionBundle {
     fn merge_reveal(mut self, other: Self) -> Result<Self, MergeRevealError> {
-        debug_assert_eq!(self.bundle_id(), other.bundle_id());
+        let self_id = self.bundle_id();
+        let other_id = other.bundle_id();
+        if self_id != other_id {
+            return Err(MergeRevealError::BundleMismatch(self_id, other_id));
+        }
 
         let mut self_transitions = self.known_transitions.release();
         for (opid, other_transition) in other.known_transitions {
-- 
2.43.0


From 980b29e5dc5cdabefba68db320250ca22d0e4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:23 +0000
Subject: [PATCH 36/59] fix: refuse implementations of unknown schemata and
 interfaces instead of a panic

---
 src/persistence/stash.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 01b0c3f..3455735 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -459,6 +459,9 @@ impl<P: StashProvider> Stash<P> {
                 .map_err(StashError::WriteProvider)?;
         }
         for iimpl in kit.iimpls {
+            // Implementation may not be stored without its schema and interface
+            self.provider.schema(iimpl.schema_id)?;
+            self.provider.iface(iimpl.iface_id)?;
             self.provider
                 .replace_iimpl(iimpl)
                 .map_err(StashError::WriteProvider)?;
-- 
2.43.0


From a2e93d9d9a3a53a73908b6058d68c40c50b6a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:23 +0000
Subject: [PATCH 37/59] fix: export interfaces which are implemented and not
 others with the same names

---
 src/persistence/stash.rs | 5 ++---
 src/persistence/stock.rs | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 3455735..a4b5294 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -416,9 +416,8 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         } else {
-            let (default_iface_name, default_iimpl) =
-                schema_ifaces.iimpls.first_key_value().unwrap();
-            let default_iface = self.iface(default_iface_name.clone())?;
+            let (_, default_iimpl) = schema_ifaces.iimpls.first_key_value().unwrap();
+            let default_iface = self.iface(default_iimpl.iface_id)?;
 
             TransitionBuilder::blank_transition(
                 contract_id,
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index d7f78eb..b61443c 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -705,8 +705,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         kit.schemata
             .push(schema_ifaces.schema.clone())
             .expect("single item");
-        for name in schema_ifaces.iimpls.keys() {
-            let iface = self.stash.iface(name.clone())?;
+        for iimpl in schema_ifaces.iimpls.values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             kit.ifaces.push(iface.clone()).expect("type guarantees");
         }
         kit.iimpls
@@ -840,8 +840,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         let schema_ifaces = self.stash.schema(genesis.schema_id)?.clone();
         let mut ifaces = BTreeMap::new();
-        for (iface_id, iimpl) in schema_ifaces.iimpls {
-            let iface = self.stash.iface(iface_id)?;
+        for iimpl in schema_ifaces.iimpls.release().into_values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             // Get iface and iimpl signatures by iface id and iimpl id
             self.stash
                 .sigs_for(&ContentId::Iface(iface.iface_id()))?
-- 
2.43.0


From c76f028ed02ff608e7a2dfc3ed4bcdc413b19aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:44 +0000
Subject: [PATCH 38/59] fix: include the history of all transitions of a
 consigned bundle

A bundle is put into a consignment with all its transitions, while only
the ancestors of the requested one were collected. Such a consignment is
refused by the recipient, since the inputs of the other transitions of
the bundle can't be resolved.
---
 src/persistence/stock.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b61443c..6350452 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -804,8 +804,12 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
         }
 
-        // 2. Collect all state transitions between terminals and genesis
+        // 2. Collect all state transitions between terminals and genesis. Bundles are included with
+        // all their transitions, so the history of each of them is needed
         let mut ids = vec![];
+        for bundle_id in anchored_bundles.keys().copied() {
+            ids.extend(self.stash.bundle(bundle_id)?.known_transitions.keys().copied());
+        }
         for transition in transitions.values() {
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
         }
@@ -820,10 +824,15 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
             transitions.insert(id, transition.clone());
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
-            anchored_bundles
-                .entry(bundle_id)
-                .or_insert(self.client_bundle(bundle_id)?.clone())
-                .reveal_transition(transition.clone())?;
+            let anchored_bundle = match anchored_bundles.entry(bundle_id) {
+                Entry::Occupied(entry) => entry.into_mut(),
+                Entry::Vacant(entry) => {
+                    let anchored_bundle = self.client_bundle(bundle_id)?;
+                    ids.extend(self.stash.bundle(bundle_id)?.known_transitions.keys().copied());
+                    entry.insert(anchored_bundle)
+                }
+            };
+            anchored_bundle.reveal_transition(transition.clone())?;
         }
 
         let genesis = self.stash.genesis(contract_id)?.clone();
-- 
2.43.0


From 6333527bd38c58c0d3d6a577ee39fe28ea8a0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:32 +0000
Subject: [PATCH 39/59] fix: report bundles of the same contract under both
 anchors of a witness

Known messages of the tapret and opret anchors were joined in a map by
contract id, hiding one of two bundles when a contract has both.
---
 src/containers/anchors.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index b608044..15ef593 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -455,16 +455,19 @@ impl StrictDumb for AnchorSet {
 
 impl AnchorSet {
     pub fn known_bundle_ids(&self) -> impl Iterator<Item = BundleId> {
-        let map = match self {
-            AnchorSet::Tapret(tapret) => tapret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Opret(opret) => opret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Double { tapret, opret } => {
-                let mut map = tapret.mpc_proof.to_known_message_map().release();
-                map.extend(opret.mpc_proof.to_known_message_map().release());
-                map
+        // The same contract may have a bundle under each of the anchors
+        let (map1, map2) = match self {
+            AnchorSet::Tapret(tapret) => {
+                (tapret.mpc_proof.to_known_message_map().release(), None)
             }
+            AnchorSet::Opret(opret) => (opret.mpc_proof.to_known_message_map().release(), None),
+            AnchorSet::Double { tapret, opret } => (
+                tapret.mpc_proof.to_known_message_map().release(),
+                Some(opret.mpc_proof.to_known_message_map().release()),
+            ),
         };
-        map.into_values()
+        map1.into_values()
+            .chain(map2.into_iter().flat_map(|map| map.into_values()))
             .map(|msg| BundleId::from_byte_array(msg.to_byte_array()))
     }
 
-- 
2.43.0


From 296cc4ffd4661d18f65d28e19137ea28f8fcac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:00 +0000
Subject: [PATCH 40/59] fix: refuse consignments with transitions the bundle
 does not commit to

---
 src/containers/consignment.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d1e85fc..df3cb8e 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -33,7 +33,7 @@ use amplify::{ByteArray, Bytes32};
 use armor::{ArmorHeader, AsciiArmor, StrictArmor, StrictArmorError};
 use baid64::{Baid64ParseError, DisplayBaid64, FromBaid64Str};
 use commit_verify::{CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256};
-use rgb::validation::{ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
+use rgb::validation::{Failure, ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
 use rgb::{
     impl_serde_baid64, validation, AttachId, BundleId, ContractId, Extension, Genesis, GraphSeal,
     Operation, Schema, SchemaId, XChain,
@@ -337,6 +337,16 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             (&self.schema, self.contract_id()),
         );
 
+        // the bundle id doesn't commit to the transitions which are absent in its input
+        // map, so they must not be a part of the bundle
+        for bundle in self.bundles.iter().flat_map(|wb| wb.anchored_bundles.bundles()) {
+            for (opid, transition) in &bundle.known_transitions {
+                if transition.id() != *opid || !bundle.input_map.values().any(|id| id == opid) {
+                    status.add_failure(Failure::BundleExtraTransition(bundle.bundle_id(), *opid));
+                }
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From a3dc90e24651971cd9187be69debb0ccb55f455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:11 +0000
Subject: [PATCH 41/59] fix: export libraries used by the validation scripts

---
 src/persistence/stash.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index a4b5294..6338020 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -311,8 +311,13 @@ impl<P: StashProvider> Stash<P> {
             .extract(type_iter)?;
 
         let mut scripts = BTreeMap::new();
-        for id in schema.libs() {
+        let mut queue = schema.libs().collect::<Vec<_>>();
+        while let Some(id) = queue.pop() {
+            if scripts.contains_key(&id) {
+                continue;
+            }
             let lib = self.provider.lib(id)?;
+            queue.extend(&lib.libs);
             scripts.insert(id, lib.clone());
         }
         let scripts = Scripts::try_from(scripts)
-- 
2.43.0


From 30e9a12f0024ad82828a4d589198119245b8b345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:11 +0000
Subject: [PATCH 42/59] fix: refuse consignments without the validation scripts

---
 src/containers/consignment.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index df3cb8e..7d9052a 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -347,6 +347,24 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             }
         }
 
+        // absent libraries are skipped by the virtual machine, thus state would be not
+        // validated
+        let mut libs = BTreeSet::new();
+        let mut queue = self.schema.libs().collect::<Vec<_>>();
+        while let Some(id) = queue.pop() {
+            if !libs.insert(id) {
+                continue;
+            }
+            match index.scripts().get(&id) {
+                Some(lib) => queue.extend(&lib.libs),
+                None => {
+                    status.add_failure(Failure::Custom(format!(
+                        "script library {id} is absent from the consignment"
+                    )));
+                }
+            }
+        }
+
         let validity = status.validity();
 
         if self.transfer != TRANSFER {
-- 
2.43.0


From 0349353919ddf30c64bfef7c01fffa2f7a34714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:12 +0000
Subject: [PATCH 43/59] fix: do not replace known types by different
 definitions

---
 src/persistence/stash.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 6338020..020ed89 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -40,7 +40,7 @@ use rgb::{
 };
 use strict_encoding::{FieldName, TypeName};
 use strict_types::typesys::UnknownType;
-use strict_types::TypeSystem;
+use strict_types::{SemId, TypeSystem};
 
 use crate::containers::{
     AnchorSet, Consignment, ConsignmentExt, ContentId, ContentRef, ContentSigs, Kit, SealWitness,
@@ -154,6 +154,9 @@ pub enum StashDataError {
     #[display(inner)]
     MergeReveal(MergeRevealError),
 
+    /// type {0} is already known with a different definition.
+    TypeMismatch(SemId),
+
     /// schema {0} doesn't implement interface {1}.
     NoIfaceImpl(SchemaId, IfaceId),
 
@@ -442,6 +445,15 @@ impl<P: StashProvider> Stash<P> {
     }
 
     pub(super) fn consume_kit(&mut self, kit: Kit) -> Result<(), StashError<P>> {
+        let types = self
+            .provider
+            .type_system()
+            .map_err(StashError::ReadProvider)?;
+        for (id, ty) in kit.types.iter() {
+            if matches!(types.get(*id), Some(known) if known != ty) {
+                return Err(StashDataError::TypeMismatch(*id).into());
+            }
+        }
         self.provider
             .consume_types(kit.types)
             .map_err(StashError::WriteProvider)?;
-- 
2.43.0


From 0a5186dbf289f046e369b57135e5e695042bc952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:27 +0000
Subject: [PATCH 44/59] fix: refuse consignments with repeated bundles

---
 src/containers/consignment.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 7d9052a..9615228 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -337,6 +337,17 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
             (&self.schema, self.contract_id()),
         );
 
+        // just one of the bundles with the same id is validated
+        let mut bundle_ids = BTreeSet::new();
+        for bundle in self.bundles.iter().flat_map(|wb| wb.anchored_bundles.bundles()) {
+            if !bundle_ids.insert(bundle.bundle_id()) {
+                status.add_failure(Failure::Custom(format!(
+                    "bundle {} is present in the consignment more than once",
+                    bundle.bundle_id()
+                )));
+            }
+        }
+
         // the bundle id doesn't commit to the transitions which are absent in its input
         // map, so they must not be a part of the bundle
         for bundle in self.bundles.iter().flat_map(|wb| wb.anchored_bundles.bundles()) {
-- 
2.43.0


From 0766ec05ae81e83c3ced191fdc0f9ca6bfabeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:25 +0000
Subject: [PATCH 45/59] fix: refuse consignments with seals of the witness
 transaction on another chain

---
 src/containers/consignment.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 9615228..207c22d 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -47,6 +47,7 @@ use super::{
     ASCII_ARMOR_CONSIGNMENT_TYPE, ASCII_ARMOR_CONTRACT, ASCII_ARMOR_IFACE, ASCII_ARMOR_SCHEMA,
     ASCII_ARMOR_TERMINAL, ASCII_ARMOR_VERSION,
 };
+use crate::contract::TypedAssignsExt;
 use crate::interface::{Iface, IfaceImpl};
 use crate::persistence::{MemContract, MemContractState};
 use crate::{SecretSeal, LIB_NAME_RGB_STD};
@@ -329,6 +330,28 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
         //_: &impl SigValidator,
         testnet: bool,
     ) -> Result<ValidConsignment<TRANSFER>, (validation::Status, Consignment<TRANSFER>)> {
+        // state with such seals can't be processed
+        let mut status = validation::Status::new();
+        for bundle in &self.bundles {
+            let witness_id = bundle.witness_id();
+            for assigns in bundle
+                .known_transitions()
+                .flat_map(|transition| transition.assignments.values())
+            {
+                for seal in assigns.filter_revealed_seals() {
+                    if seal.try_to_output_seal(witness_id).is_err() {
+                        status.add_failure(Failure::SealWitnessLayer1Mismatch {
+                            seal: seal.layer1(),
+                            anchor: witness_id.layer1(),
+                        });
+                    }
+                }
+            }
+        }
+        if status.validity() != Validity::Valid {
+            return Err((status, self));
+        }
+
         let index = IndexedConsignment::new(&self);
         let mut status = Validator::<MemContract<MemContractState>, _, _>::validate(
             &index,
-- 
2.43.0


From 1971fc1ec30457e21f09dce570a17d45fc3c24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:25 +0000
Subject: [PATCH 46/59] fix: refuse consignments spending the same state twice
 in a bundle

---
 src/containers/consignment.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 207c22d..3556449 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -374,7 +374,17 @@ impl<const TRANSFER: bool> Consignment<TRANSFER> {
         // the bundle id doesn't commit to the transitions which are absent in its input
         // map, so they must not be a part of the bundle
         for bundle in self.bundles.iter().flat_map(|wb| wb.anchored_bundles.bundles()) {
+            let mut inputs = BTreeSet::new();
             for (opid, transition) in &bundle.known_transitions {
+                for input in &transition.inputs {
+                    if !inputs.insert(input.prev_out) {
+                        status.add_failure(Failure::Custom(format!(
+                            "state {} is spent in the bundle {} more than once",
+                            input.prev_out,
+                            bundle.bundle_id()
+                        )));
+                    }
+                }
                 if transition.id() != *opid || !bundle.input_map.values().any(|id| id == opid) {
                     status.add_failure(Failure::BundleExtraTransition(bundle.bundle_id(), *opid));
                 }
-- 
2.43.0


From 3bfb8cdb5f0afbe39affd6f8a4bfb0532e5fc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:38 +0000
Subject: [PATCH 47/59] fix: do not panic on operations with unknown global
 state

---
 src/persistence/memory.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 5e1fa28..63b4249 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -792,10 +792,11 @@ impl MemContractState {
         let opid = op.id();
 
         for (ty, state) in op.globals() {
-            let map = self
-                .global
-                .get_mut(ty)
-                .expect("global map must be initialized from the schema");
+            // The global state of a type which is absent in the schema is reported by the
+            // validation
+            let Some(map) = self.global.get_mut(ty) else {
+                continue;
+            };
             for (idx, s) in state.iter().enumerate() {
                 let out = GlobalOut {
                     opid,
-- 
2.43.0


From 373618177a5273a0773e7e6d5b28818aacde07da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:08 +0000
Subject: [PATCH 48/59] fix: write headers of armored kits in the form which
 can be parsed back

---
 src/containers/kit.rs | 90 +++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 46 deletions(-)

diff --git a/src/containers/kit.rs b/src/containers/kit.rs
index 4316f83..eeea59b 100644
--- a/src/containers/kit.rs
+++ b/src/containers/kit.rs
@@ -199,62 +199,60 @@ impl StrictArmor for Kit {
 
     fn armor_id(&self) -> Self::Id { self.kit_id() }
     fn armor_headers(&self) -> Vec<ArmorHeader> {
+        // Armor parser works on a line-by-line basis, thus parameters must be kept on
+        // the same line as the value.
+        fn with_params(
+            title: &'static str,
+            value: String,
+            params: impl IntoIterator<Item = (&'static str, String)>,
+            suppl: Option<&Supplement>,
+        ) -> ArmorHeader {
+            let suppl = suppl.map(|suppl| ("suppl", format!("{:-}", suppl.suppl_id())));
+            let line = params
+                .into_iter()
+                .chain(suppl)
+                .fold(value, |line, (name, val)| format!("{line}; {name}={val}"));
+            ArmorHeader::new(title, line)
+        }
+
         let mut headers =
             vec![ArmorHeader::new(ASCII_ARMOR_VERSION, format!("{:#}", self.version))];
         for schema in &self.schemata {
-            let mut header = ArmorHeader::new(ASCII_ARMOR_SCHEMA, schema.name.to_string());
             let id = schema.schema_id();
-            header.params.push((s!("id"), format!("{id:-}")));
-            header
-                .params
-                .push((s!("dev"), schema.developer.to_string()));
-            if let Some(suppl) = self
-                .supplements
-                .iter()
-                .find(|s| s.content_id == ContentRef::Schema(id))
-            {
-                header
-                    .params
-                    .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
-            }
-            headers.push(header);
+            headers.push(with_params(
+                ASCII_ARMOR_SCHEMA,
+                schema.name.to_string(),
+                [("id", format!("{id:-}")), ("dev", schema.developer.to_string())],
+                self.supplements
+                    .iter()
+                    .find(|s| s.content_id == ContentRef::Schema(id)),
+            ));
         }
         for iface in &self.ifaces {
-            let mut header = ArmorHeader::new(ASCII_ARMOR_IFACE, iface.name.to_string());
             let id = iface.iface_id();
-            header.params.push((s!("id"), format!("{id:-}")));
-            header.params.push((s!("dev"), iface.developer.to_string()));
-            if let Some(suppl) = self
-                .supplements
-                .iter()
-                .find(|s| s.content_id == ContentRef::Iface(id))
-            {
-                header
-                    .params
-                    .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
-            }
-            headers.push(header);
+            headers.push(with_params(
+                ASCII_ARMOR_IFACE,
+                iface.name.to_string(),
+                [("id", format!("{id:-}")), ("dev", iface.developer.to_string())],
+                self.supplements
+                    .iter()
+                    .find(|s| s.content_id == ContentRef::Iface(id)),
+            ));
         }
         for iimpl in &self.iimpls {
             let id = iimpl.impl_id();
-            let mut header = ArmorHeader::new(ASCII_ARMOR_IIMPL, format!("{id:-}"));
-            header
-                .params
-                .push((s!("interface"), format!("{:-}", iimpl.iface_id)));
-            header
-                .params
-                .push((s!("schema"), format!("{:-}", iimpl.schema_id)));
-            header.params.push((s!("dev"), iimpl.developer.to_string()));
-            if let Some(suppl) = self
-                .supplements
-                .iter()
-                .find(|s| s.content_id == ContentRef::IfaceImpl(id))
-            {
-                header
-                    .params
-                    .push((s!("suppl"), format!("{:-}", suppl.suppl_id())));
-            }
-            headers.push(header);
+            headers.push(with_params(
+                ASCII_ARMOR_IIMPL,
+                format!("{id:-}"),
+                [
+                    ("interface", format!("{:-}", iimpl.iface_id)),
+                    ("schema", format!("{:-}", iimpl.schema_id)),
+                    ("dev", iimpl.developer.to_string()),
+                ],
+                self.supplements
+                    .iter()
+                    .find(|s| s.content_id == ContentRef::IfaceImpl(id)),
+            ));
         }
         headers.push(ArmorHeader::new(ASCII_ARMOR_TYPE_SYSTEM, self.types.id().to_string()));
         for lib in &self.scripts {
-- 
2.43.0


From a4a0c4c067a9c6ffb55cf5511d2b88c6e608741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:08 +0000
Subject: [PATCH 49/59] fix: write armored consignments with several interfaces
 in the form which can be parsed back

---
 src/containers/consignment.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 3556449..0358c57 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -465,17 +465,13 @@ impl<const TRANSFER: bool> StrictArmor for Consignment<TRANSFER> {
             ArmorHeader::new(ASCII_ARMOR_CONTRACT, self.contract_id().to_string()),
             ArmorHeader::new(ASCII_ARMOR_SCHEMA, self.schema.schema_id().to_string()),
         ];
-        if !self.ifaces.is_empty() {
-            headers.push(ArmorHeader::with(
-                ASCII_ARMOR_IFACE,
-                self.ifaces.keys().map(|iface| iface.name.to_string()),
-            ));
+        // Armor parser works on a line-by-line basis, thus a header can't have multiple
+        // values
+        for iface in self.ifaces.keys() {
+            headers.push(ArmorHeader::new(ASCII_ARMOR_IFACE, iface.name.to_string()));
         }
-        if !self.terminals.is_empty() {
-            headers.push(ArmorHeader::with(
-                ASCII_ARMOR_TERMINAL,
-                self.terminals.keys().map(BundleId::to_string),
-            ));
+        for bundle_id in self.terminals.keys() {
+            headers.push(ArmorHeader::new(ASCII_ARMOR_TERMINAL, bundle_id.to_string()));
         }
         headers
     }
-- 
2.43.0


From 6db288b321072554e38376354cf3d39923e22a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:31 +0000
Subject: [PATCH 50/59] fix: do not read armored contracts as transfers and
 vice versa

---
 src/containers/consignment.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index 0358c57..6105e36 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -30,7 +30,7 @@ use amplify::confinement::{
     Confined, LargeOrdSet, MediumBlob, SmallOrdMap, SmallOrdSet, TinyOrdMap, TinyOrdSet,
 };
 use amplify::{ByteArray, Bytes32};
-use armor::{ArmorHeader, AsciiArmor, StrictArmor, StrictArmorError};
+use armor::{ArmorHeader, ArmorParseError, AsciiArmor, StrictArmor, StrictArmorError};
 use baid64::{Baid64ParseError, DisplayBaid64, FromBaid64Str};
 use commit_verify::{CommitEncode, CommitEngine, CommitId, CommitmentId, DigestExt, Sha256};
 use rgb::validation::{Failure, ResolveWitness, Validator, Validity, Warning, CONSIGNMENT_MAX_LIBS};
@@ -481,9 +481,10 @@ impl<const TRANSFER: bool> StrictArmor for Consignment<TRANSFER> {
             .iter()
             .find(|header| header.title == ASCII_ARMOR_CONSIGNMENT_TYPE)
         {
-            if self.transfer && header.values.len() != 1 && header.values[0] != "transfer" {
-                // TODO: Add header-specific errors to StrictArmorError
-                // return Err(Strict)
+            // TODO: Add header-specific errors to StrictArmorError
+            let expected = if self.transfer { "transfer" } else { "contract" };
+            if self.transfer != TRANSFER || header.values != [expected] {
+                return Err(ArmorParseError::InvalidHeaderFormat(header.to_string()).into());
             }
         }
         Ok(())
@@ -504,7 +505,14 @@ pub enum ConsignmentParseError {
 impl<const TRANSFER: bool> FromStr for Consignment<TRANSFER> {
     type Err = ConsignmentParseError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let consignment = Self::from_ascii_armored_str(s)?;
+        let consignment = Self::from_ascii_armored_str(s).map_err(|err| match err {
+            StrictArmorError::Armor(ArmorParseError::InvalidHeaderFormat(header))
+                if header.starts_with(ASCII_ARMOR_CONSIGNMENT_TYPE) =>
+            {
+                ConsignmentParseError::Type
+            }
+            err => ConsignmentParseError::Armor(err),
+        })?;
 
         if consignment.transfer != TRANSFER {
             return Err(ConsignmentParseError::Type);
-- 
2.43.0


From be6e9c57801f446e4b3333e3d3b2f37cffa479cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:31 +0000
Subject: [PATCH 51/59] fix: refuse files having data after the container

---
 src/containers/file.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/containers/file.rs b/src/containers/file.rs
index 4cd722c..b5ff0ef 100644
--- a/src/containers/file.rs
+++ b/src/containers/file.rs
@@ -24,7 +24,7 @@ use std::io::{self, Read, Write};
 
 use amplify::confinement::U32 as FILE_MAX_LEN;
 use armor::{AsciiArmor, StrictArmor};
-use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode};
+use strict_encoding::{DecodeError, StreamReader, StreamWriter, StrictDecode, StrictEncode};
 
 use crate::containers::{Contract, Kit, Transfer};
 
@@ -40,13 +40,23 @@ pub enum LoadError {
     #[display(inner)]
     #[from]
     #[from(io::Error)]
-    Decode(strict_encoding::DecodeError),
+    Decode(DecodeError),
 
     #[display(inner)]
     #[from]
     Armor(armor::StrictArmorError),
 }
 
+/// Makes sure that the file contains nothing beyond the container read.
+fn check_entirely_read(reader: StreamReader<impl Read>) -> Result<(), LoadError> {
+    let mut rest = vec![];
+    reader.unconfine().take(1).read_to_end(&mut rest)?;
+    if !rest.is_empty() {
+        return Err(DecodeError::DataIntegrityError(s!("data are not entirely consumed")).into());
+    }
+    Ok(())
+}
+
 pub trait FileContent: StrictArmor {
     /// Magic bytes used in saving/restoring container from a file.
     const MAGIC: [u8; MAGIC_LEN];
@@ -60,8 +70,9 @@ pub trait FileContent: StrictArmor {
             return Err(LoadError::InvalidMagic);
         }
 
-        let reader = StreamReader::new::<FILE_MAX_LEN>(data);
-        let me = Self::strict_read(reader)?;
+        let mut reader = StreamReader::new::<FILE_MAX_LEN>(data);
+        let me = Self::strict_read(&mut reader)?;
+        check_entirely_read(reader)?;
 
         Ok(me)
     }
@@ -145,12 +156,15 @@ impl UniversalFile {
             return Err(LoadError::InvalidMagic);
         }
         let mut reader = StreamReader::new::<FILE_MAX_LEN>(data);
-        Ok(match magic {
+        let me = match magic {
             x if x == Kit::MAGIC => Kit::strict_read(&mut reader)?.into(),
             x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.into(),
             x if x == Transfer::MAGIC => Transfer::strict_read(&mut reader)?.into(),
             _ => return Err(LoadError::InvalidMagic),
-        })
+        };
+        check_entirely_read(reader)?;
+
+        Ok(me)
     }
 
     pub fn save(&self, mut writer: impl Write) -> Result<(), io::Error> {
-- 
2.43.0


From f780f695c6f5d09f2f47a6dd66db2817eff4dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:53:31 +0000
Subject: [PATCH 52/59] fix: do not load transfers from contract files and vice
 versa

---
 src/containers/file.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/containers/file.rs b/src/containers/file.rs
index b5ff0ef..92beeda 100644
--- a/src/containers/file.rs
+++ b/src/containers/file.rs
@@ -61,6 +61,9 @@ pub trait FileContent: StrictArmor {
     /// Magic bytes used in saving/restoring container from a file.
     const MAGIC: [u8; MAGIC_LEN];
 
+    /// Detects whether the content is of the kind indicated by [`Self::MAGIC`].
+    fn is_of_kind(&self) -> bool { true }
+
     fn load(mut data: impl Read) -> Result<Self, LoadError> {
         let mut rgb = [0u8; 4];
         let mut magic = [0u8; MAGIC_LEN];
@@ -73,6 +76,9 @@ pub trait FileContent: StrictArmor {
         let mut reader = StreamReader::new::<FILE_MAX_LEN>(data);
         let me = Self::strict_read(&mut reader)?;
         check_entirely_read(reader)?;
+        if !me.is_of_kind() {
+            return Err(LoadError::InvalidMagic);
+        }
 
         Ok(me)
     }
@@ -118,10 +124,12 @@ impl FileContent for Kit {
 
 impl FileContent for Contract {
     const MAGIC: [u8; MAGIC_LEN] = *b"CON";
+    fn is_of_kind(&self) -> bool { !self.transfer }
 }
 
 impl FileContent for Transfer {
     const MAGIC: [u8; MAGIC_LEN] = *b"TFR";
+    fn is_of_kind(&self) -> bool { self.transfer }
 }
 
 // TODO: Add disclosure
@@ -156,13 +164,21 @@ impl UniversalFile {
             return Err(LoadError::InvalidMagic);
         }
         let mut reader = StreamReader::new::<FILE_MAX_LEN>(data);
-        let me = match magic {
+        let me: Self = match magic {
             x if x == Kit::MAGIC => Kit::strict_read(&mut reader)?.into(),
             x if x == Contract::MAGIC => Contract::strict_read(&mut reader)?.into(),
             x if x == Transfer::MAGIC => Transfer::strict_read(&mut reader)?.into(),
             _ => return Err(LoadError::InvalidMagic),
         };
         check_entirely_read(reader)?;
+        let is_of_kind = match &me {
+            UniversalFile::Kit(content) => content.is_of_kind(),
+            UniversalFile::Contract(content) => content.is_of_kind(),
+            UniversalFile::Transfer(content) => content.is_of_kind(),
+        };
+        if !is_of_kind {
+            return Err(LoadError::InvalidMagic);
+        }
 
         Ok(me)
     }
-- 
2.43.0


From 78fef7707add3fcf2993031315cb35eb376eaa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:39 +0000
Subject: [PATCH 53/59] fix: keep annotations of a supplement when a new one is
 refused

---
 src/containers/suppl.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/containers/suppl.rs b/src/containers/suppl.rs
index 5da0ea8..cfaf2d3 100644
--- a/src/containers/suppl.rs
+++ b/src/containers/suppl.rs
@@ -276,15 +276,8 @@ impl Supplement {
         name: impl Into<AnnotationName>,
         data: &impl StrictSerialize,
     ) -> Result<bool, SerializeError> {
-        let mut a = self
-            .annotations
-            .remove(&sub)
-            .expect("zero items allowed")
-            .unwrap_or_default();
-        let mut b = a
-            .remove(&item)
-            .expect("zero items allowed")
-            .unwrap_or_default();
+        let mut a = self.annotations.get(&sub).cloned().unwrap_or_default();
+        let mut b = a.get(&item).cloned().unwrap_or_default();
         let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
         a.insert(item, b)?;
         self.annotations.insert(sub, a)?;
-- 
2.43.0


From 3edc0df5fa4d1395ed7fda7569e833b80377e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:03 +0000
Subject: [PATCH 54/59] fix: report state and operations named twice by an
 interface implementation

---
 src/interface/iimpl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index 1e528ed..f381b68 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -421,7 +421,7 @@ impl IfaceImpl {
             dup_metadata
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.meta_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaMetaAbsent(field.name.clone(), field.id));
             }
@@ -443,7 +443,7 @@ impl IfaceImpl {
             dup_global_state
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.global_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaGlobalAbsent(field.name.clone(), field.id));
             }
@@ -465,7 +465,7 @@ impl IfaceImpl {
             dup_assignments
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.owned_types.contains_key(&field.id) {
                 errors
                     .push(ImplInconsistency::SchemaAssignmentAbsent(field.name.clone(), field.id));
@@ -488,7 +488,7 @@ impl IfaceImpl {
             dup_valencies
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.valency_types.contains(&field.id) {
                 errors.push(ImplInconsistency::SchemaValencyAbsent(field.name.clone(), field.id));
@@ -510,7 +510,7 @@ impl IfaceImpl {
             dup_transitions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.transitions.contains_key(&field.id) {
                 errors
@@ -534,7 +534,7 @@ impl IfaceImpl {
             dup_extensions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.extensions.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaExtensionAbsent(field.name.clone(), field.id));
-- 
2.43.0


From 80ec72402976f67772f087f49e8ab57cdf6f7c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:03 +0000
Subject: [PATCH 55/59] fix: allow interface implementations to omit optional
 operations

---
 src/interface/iimpl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index f381b68..6ffbc1f 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -501,8 +501,8 @@ impl IfaceImpl {
                 errors.push(ImplInconsistency::RepeatedValencies(field_name.clone(), count));
             });
 
-        for name in iface.transitions.keys() {
-            if self.transitions.iter().all(|field| &field.name != name) {
+        for (name, transition) in &iface.transitions {
+            if !transition.optional && self.transitions.iter().all(|field| &field.name != name) {
                 errors.push(ImplInconsistency::IfaceTransitionAbsent(name.clone()));
             }
         }
@@ -525,8 +525,8 @@ impl IfaceImpl {
                 errors.push(ImplInconsistency::RepeatedTransitions(field_name.clone(), count));
             });
 
-        for name in iface.extensions.keys() {
-            if self.extensions.iter().all(|field| &field.name != name) {
+        for (name, extension) in &iface.extensions {
+            if !extension.optional && self.extensions.iter().all(|field| &field.name != name) {
                 errors.push(ImplInconsistency::IfaceExtensionAbsent(name.clone()));
             }
         }
-- 
2.43.0


From de3d8125cc8d233e42e8f388dcca497f1aeae5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:03 +0000
Subject: [PATCH 56/59] fix: keep valencies when an implementation is
 translated to a parent interface

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 518c059..3b98c0b 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -708,7 +708,7 @@ impl IfaceImpl {
                     .cloned()
             }));
 
-        self.valencies = Confined::from_iter_checked(base.assignments.keys().filter_map(|name| {
+        self.valencies = Confined::from_iter_checked(base.valencies.keys().filter_map(|name| {
             self.valencies
                 .iter()
                 .find(|i| parent.valencies.contains_key(name) && &i.name == name)
-- 
2.43.0


From c918953e149072cf782709ffd0e6c5e8a6296967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:03 +0000
Subject: [PATCH 57/59] fix: drop errors unknown to a parent interface when an
 implementation is translated to it

---
 src/interface/inheritance.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 3b98c0b..c4642d0 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -730,6 +730,13 @@ impl IfaceImpl {
                 .cloned()
         }));
 
+        self.errors = Confined::from_iter_checked(base.errors.keys().filter_map(|name| {
+            self.errors
+                .iter()
+                .find(|i| parent.errors.contains_key(name) && &i.name == name)
+                .cloned()
+        }));
+
         self.iface_id = parent_id;
 
         Some(self)
-- 
2.43.0


From 6db71287e51f977c6ba4726b6f6571b57bd646bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:03 +0000
Subject: [PATCH 58/59] fix: name state extensions in errors of interface
 inheritance

---
 src/interface/inheritance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index c4642d0..8a54b5a 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -473,7 +473,7 @@ impl Iface {
                     if self
                         .extensions
                         .insert(name, op)
-                        .map_err(|_| errors.push(ExtensionError::TransitionOverflow))
+                        .map_err(|_| errors.push(ExtensionError::ExtensionOverflow))
                         .is_err()
                     {
                         break;
@@ -640,7 +640,7 @@ impl ExtensionIface {
     pub fn extended(mut self, ext: Self, op_name: FieldName) -> Result<Self, Vec<ExtensionError>> {
         let mut errors = vec![];
 
-        let op = OpName::Transition(op_name);
+        let op = OpName::Extension(op_name);
         if self.modifier.is_final() {
             errors.push(ExtensionError::OpFinal(op.clone()));
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
-- 
2.43.0


From f30dbcc820454d458b72225d58675b0ba4d2e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:01:03 +0000
Subject: [PATCH 59/59] fix: refuse to change the type of inherited metadata

---
 src/interface/inheritance.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 8a54b5a..822cc4f 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -232,6 +232,8 @@ pub struct InheritError {
 pub enum ExtensionError {
     /// too many metadata fields defined.
     MetaOverflow,
+    /// metadata '{0}' has different data type from the parent interface.
+    MetaType(FieldName),
     /// too many global state types defined.
     GlobalOverflow,
     /// global state '{0}' has different data type from the parent interface.
@@ -359,6 +361,11 @@ impl Iface {
 
         let mut errors = vec![];
 
+        for (name, sem_id) in &ext.metadata {
+            if self.metadata.get(name).is_some_and(|orig| orig != sem_id) {
+                errors.push(ExtensionError::MetaType(name.clone()));
+            }
+        }
         self.metadata
             .extend(ext.metadata)
             .map_err(|_| errors.push(ExtensionError::MetaOverflow))
-- 
2.43.0

