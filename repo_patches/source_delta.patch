From 5036a79ba043b9b915d30d7bedd8e5bac71dbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 01/32] fix: refuse signed conversions which would change the
 sign

Integer::from(200u8) converted to i8 gave -56 and Integer::from(-129) gave 127,
as only the number of bytes was checked.
---
 crates/sourisdb/src/types/integer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index dee22ff..9b8ecc5 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -281,7 +281,11 @@ macro_rules! from_signed {
                     start
                 };
 
-                Ok(<$t>::from_le_bytes(out))
+                let n = <$t>::from_le_bytes(out);
+                if (n < 0) != (i.signed_state == SignedState::SignedNegative) {
+                    return Err(IntegerSerError::TooBigToFit);
+                }
+                Ok(n)
             }
         }
         )+
-- 
2.43.0


From ff860f94c89962ce4502c6f9e0edfa543ca0d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 02/32] fix: represent an unsigned zero like every other zero

Integer::from(0u8) used one byte where Integer::from(0i8), parsing "0" and
deserialising used none, so those zeroes compared unequal.
---
 crates/sourisdb/src/types/integer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 9b8ecc5..558e617 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -301,14 +301,14 @@ macro_rules! from_unsigned {
                 for (i, b) in n.to_le_bytes().into_iter().enumerate() {
                     content[i] = b;
                     if b != 0 {
-                        last_non_zero_byte = i;
+                        last_non_zero_byte = i + 1;
                     }
                 }
 
                 Self {
                     signed_state: SignedState::Unsigned,
                     content,
-                    number_of_bytes_used: last_non_zero_byte + 1
+                    number_of_bytes_used: last_non_zero_byte
                 }
             }
         }
-- 
2.43.0


From 2024f517a09c2c5d67de2dd650b235d977260ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 03/32] fix: deserialise padded and wrongly signed integers
 consistently

Padding bytes made an integer unequal to the same number without them, and a
signed integer whose content has the other sign panicked when converted to a
float.
---
 crates/sourisdb/src/types/integer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index 558e617..e3da933 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -766,6 +766,18 @@ impl Integer {
             content[i] = b;
         }
 
+        let is_negative = signed_state == SignedState::SignedNegative;
+        let top_bit_set = content[INTEGER_MAX_SIZE - 1] > 0x7f;
+        if signed_state != SignedState::Unsigned && top_bit_set != is_negative {
+            return Err(IntegerSerError::SignError);
+        }
+        //the bytes may be padded, and equal integers must use the same number of bytes
+        let padding = if is_negative { u8::MAX } else { 0 };
+        let number_of_bytes_used = content
+            .iter()
+            .rposition(|b| *b != padding)
+            .map_or(usize::from(is_negative), |i| i + 1);
+
         Ok(Self {
             signed_state,
             content,
-- 
2.43.0


From 56f0ff864a27894d109eab66ecc8bc3486e1d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 04/32] fix: convert floats to integers exactly when they
 denote one

Negative fractions were accepted and floored, every non-negative f32 was
refused as too large, infinite and NaN f32s were not, and i128::MIN was refused.
---
 crates/sourisdb/src/types/integer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/types/integer.rs b/crates/sourisdb/src/types/integer.rs
index e3da933..fa33714 100644
--- a/crates/sourisdb/src/types/integer.rs
+++ b/crates/sourisdb/src/types/integer.rs
@@ -416,15 +416,15 @@ impl TryFrom<f64> for Integer {
         if !value.is_finite() {
             return Err(FloatToIntegerConversionError::NotFinite);
         }
-        if value.fract() > f64::EPSILON {
+        if value.fract().abs() > f64::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 value.fract(),
             ));
         }
 
-        let floored = value.floor();
+        let floored = value.trunc();
         if floored < 0.0 {
-            if floored > BiggestIntButSigned::MIN as f64 {
+            if floored >= BiggestIntButSigned::MIN as f64 {
                 Ok((floored as BiggestIntButSigned).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
@@ -448,21 +448,24 @@ impl TryFrom<f32> for Integer {
         clippy::cast_sign_loss
     )]
     fn try_from(value: f32) -> Result<Self, Self::Error> {
-        if value.fract() > f32::EPSILON {
+        if !value.is_finite() {
+            return Err(FloatToIntegerConversionError::NotFinite);
+        }
+        if value.fract().abs() > f32::EPSILON {
             return Err(FloatToIntegerConversionError::DecimalsNotSupported(
                 f64::from(value.fract()),
             ));
         }
 
-        let floored = value.floor();
+        let floored = value.trunc();
         if floored < 0.0 {
-            if floored > i128::MIN as f32 {
+            if floored >= i128::MIN as f32 {
                 Ok((floored as i128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
             }
         } else {
-            if floored > u128::MAX as f32 {
+            if floored < u128::MAX as f32 {
                 Ok((floored as u128).into())
             } else {
                 Err(FloatToIntegerConversionError::TooLarge)
-- 
2.43.0


From 32abcac75d1638361a21c65ac0233f45c0996240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 05/32] fix: read the right number of bytes for bits and ignore
 those after the last

The byte count was rounded through an f32, which is wrong above 2^24 bits, and
leftover bits in the last byte made equal bits unequal and corrupted later
pushes and pops.
---
 crates/sourisdb/src/utilities/bits.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/bits.rs b/crates/sourisdb/src/utilities/bits.rs
index c1ae435..713f5bf 100644
--- a/crates/sourisdb/src/utilities/bits.rs
+++ b/crates/sourisdb/src/utilities/bits.rs
@@ -161,10 +161,14 @@ impl Bits {
     )]
     pub fn deser(bytes: &mut Cursor<u8>) -> Result<Self, IntegerSerError> {
         let valid_bits: usize = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
-        let to_be_read = (valid_bits as f32 / 8.0).ceil() as usize;
-        let Some(backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
+        let to_be_read = valid_bits.div_ceil(8);
+        let Some(mut backing) = bytes.read(to_be_read).map(<[u8]>::to_vec) else {
             return Err(IntegerSerError::NotEnoughBytes);
         };
+        //everything else relies on the bits after the last valid one being unset
+        if let (Some(last), 1..) = (backing.last_mut(), valid_bits % 8) {
+            *last &= (1 << (valid_bits % 8)) - 1;
+        }
 
         Ok(Self {
             backing,
-- 
2.43.0


From da6aa9a8254529df6b29a3b66935209db859901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 06/32] fix: seek a cursor to the position asked for

Seeking from the start moved backwards from the current position, seeking from
the end did too, negative offsets from the current position were ignored, and
seeking to End(i64::MIN) overflowed.
---
 crates/sourisdb/src/utilities/cursor.rs | 48 +++++++++----------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/crates/sourisdb/src/utilities/cursor.rs b/crates/sourisdb/src/utilities/cursor.rs
index 34d8dd4..06c57ad 100644
--- a/crates/sourisdb/src/utilities/cursor.rs
+++ b/crates/sourisdb/src/utilities/cursor.rs
@@ -208,38 +208,24 @@ impl<'a, T> core::iter::Iterator for Cursor<'a, T> {
 
 #[cfg(feature = "std")]
 impl<'a, T> std::io::Seek for Cursor<'a, T> {
-    #[allow(
-        clippy::collapsible_if,
-        clippy::cast_possible_truncation,
-        clippy::cast_sign_loss
-    )]
     fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
-        match pos {
-            std::io::SeekFrom::Current(offset) => {
-                if offset > 0 {
-                    if !self.move_forwards(offset as usize) {
-                        return Err(std::io::Error::new(
-                            std::io::ErrorKind::NotFound,
-                            "Goes out of bounds".to_string(),
-                        ));
-                    }
-                }
-            }
-            std::io::SeekFrom::End(offset) => {
-                if offset > 0 || !self.move_backwards((-offset) as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
-            }
-            std::io::SeekFrom::Start(offset) => {
-                if !self.move_backwards(offset as usize) {
-                    return Err(std::io::Error::new(
-                        std::io::ErrorKind::NotFound,
-                        "Goes out of bounds".to_string(),
-                    ));
-                }
+        let target = match pos {
+            std::io::SeekFrom::Start(offset) => usize::try_from(offset).ok(),
+            std::io::SeekFrom::Current(offset) => isize::try_from(offset)
+                .ok()
+                .and_then(|offset| self.pos.checked_add_signed(offset)),
+            std::io::SeekFrom::End(offset) => isize::try_from(offset)
+                .ok()
+                .and_then(|offset| self.backing.len().checked_add_signed(offset)),
+        };
+
+        match target {
+            Some(target) if target <= self.backing.len() => self.pos = target,
+            _ => {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::NotFound,
+                    "Goes out of bounds".to_string(),
+                ));
             }
         }
 
-- 
2.43.0


From 17c8b12a708c36b1f7f1675863bff07519d67a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 07/32] fix: code data with only one distinct symbol

Such data was encoded into no bits at all and decoded into nothing, and
decoding any bits with a one-symbol tree panicked.
---
 crates/sourisdb/src/utilities/huffman.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index 9d06040..f4471dd 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -361,7 +361,12 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
     ) {
         match node {
             Node::Leaf(ch) => {
-                to_bits.insert(ch.clone(), bits_so_far);
+                let mut bits = bits_so_far;
+                if bits.is_empty() {
+                    //a lone symbol still needs a bit for each of its occurrences
+                    bits.push(true);
+                }
+                to_bits.insert(ch.clone(), bits);
             }
             Node::Branch { left, right } => {
                 let mut left_bits = bits_so_far.clone();
@@ -421,7 +426,10 @@ impl<T: Eq + Hash + Clone> Huffman<T> {
         for next_direction in bits {
             let new_node;
             match current_node {
-                Node::Leaf(_) => unreachable!(),
+                Node::Leaf(ch) => {
+                    result.push(ch.clone());
+                    new_node = current_node;
+                }
                 Node::Branch { left, right } => {
                     let found = if next_direction { left } else { right };
                     if let Some(t) = found.leaf_contents().cloned() {
-- 
2.43.0


From 40557549f80b930eb2d7f6e2f6dcacdff0163631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 08/32] fix: refuse a padded zero as a character of a huffman
 tree

It underflowed when the offset of one was taken off again.
---
 crates/sourisdb/src/utilities/huffman.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index f4471dd..bb1d3ea 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -198,8 +198,8 @@ impl Node<char> {
         } else {
             cursor.move_backwards(1);
             let ch: u32 = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
-            let Ok(ch) = char::try_from(ch - 1) else {
-                return Err(HuffmanSerError::InvalidCharacter(ch - 1));
+            let Some(Ok(ch)) = ch.checked_sub(1).map(char::try_from) else {
+                return Err(HuffmanSerError::InvalidCharacter(ch));
             };
 
             Ok(Node::Leaf(ch))
-- 
2.43.0


From a37510d626d293cc4ea37cf0c7f8ae393a8c1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 09/32] fix: bound the recursion when deserialising a huffman
 tree

A run of branch markers overflowed the stack.
---
 crates/sourisdb/src/utilities/huffman.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/utilities/huffman.rs b/crates/sourisdb/src/utilities/huffman.rs
index bb1d3ea..4050e21 100644
--- a/crates/sourisdb/src/utilities/huffman.rs
+++ b/crates/sourisdb/src/utilities/huffman.rs
@@ -138,6 +138,9 @@ impl<T: PartialEq> Node<T> {
         }
     }
 }
+///How deep a serialised tree can be: an optimal tree for `usize` weights is never deeper than 93, and one for [`u8`]s never deeper than 255.
+const MAX_TREE_DEPTH: usize = 255;
+
 impl Node<u8> {
     pub fn ser(&self) -> Vec<u8> {
         match self {
@@ -152,14 +155,19 @@ impl Node<u8> {
     }
 
     pub fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_below(cursor, MAX_TREE_DEPTH)
+    }
+
+    fn deser_below(cursor: &mut Cursor<u8>, levels: usize) -> Result<Self, HuffmanSerError> {
         let Some(start) = cursor.next().copied() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         match start {
             0 => {
-                let left = Box::new(Self::deser(cursor)?);
-                let right = Box::new(Self::deser(cursor)?);
+                let levels = levels.checked_sub(1).ok_or(HuffmanSerError::TreeTooDeep)?;
+                let left = Box::new(Self::deser_below(cursor, levels)?);
+                let right = Box::new(Self::deser_below(cursor, levels)?);
                 Ok(Node::Branch { left, right })
             }
             1 => {
@@ -187,13 +195,18 @@ impl Node<char> {
     }
 
     fn deser(cursor: &mut Cursor<u8>) -> Result<Self, HuffmanSerError> {
+        Self::deser_below(cursor, MAX_TREE_DEPTH)
+    }
+
+    fn deser_below(cursor: &mut Cursor<u8>, levels: usize) -> Result<Self, HuffmanSerError> {
         let Some(ch) = cursor.next() else {
             return Err(HuffmanSerError::NotEnoughBytes);
         };
 
         if *ch == 0 {
-            let left = Box::new(Self::deser(cursor)?);
-            let right = Box::new(Self::deser(cursor)?);
+            let levels = levels.checked_sub(1).ok_or(HuffmanSerError::TreeTooDeep)?;
+            let left = Box::new(Self::deser_below(cursor, levels)?);
+            let right = Box::new(Self::deser_below(cursor, levels)?);
             Ok(Node::Branch { left, right })
         } else {
             cursor.move_backwards(1);
@@ -220,6 +233,8 @@ pub enum HuffmanSerError {
     InvalidNodeFormat { ex: char, found: u8 },
     ///We were deserialising nodes with `u8`s, and we found an invalid discriminant for whether the next item was a branch or a leaf
     InvalidDiscriminant(u8),
+    ///We were deserialising nodes, and found more nested branches than any serialised tree has.
+    TreeTooDeep,
     ///We tried to encode/decode some bits using the provided [`Huffman`] tree but couldn't.
     UnableToCode,
     ///In order to create a node tree, the provided list must not be empty
@@ -250,6 +265,7 @@ impl Display for HuffmanSerError {
             HuffmanSerError::InvalidDiscriminant(b) => {
                 write!(f, "Deserialising u8 node tree, expected 0 or 1, found {b}")
             }
+            HuffmanSerError::TreeTooDeep => write!(f, "Node tree is nested too deeply"),
             HuffmanSerError::UnableToCode => write!(
                 f,
                 "Unable to encode/decode given bits using given huffman tree"
-- 
2.43.0


From 77af56bd06a19ef07bb30648857204ac4ecb77c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 10/32] fix: deserialise the keys of a map the way they are
 serialised

---
 crates/sourisdb/src/values.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 62d9588..6c9324b 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1147,7 +1147,7 @@ impl Value {
             FoundValue(Value),
             JsonNeeded,
             TimezoneNeeded,
-            Map(HashMap<String, Value>, usize, u8),
+            Map(HashMap<String, Value>, usize),
             FoundKey(String),
             FoundKeyValue(String, Value),
             Array(Vec<Value>, usize),
@@ -1156,7 +1156,7 @@ impl Value {
         enum ParseResult {
             Value(Value),
             NewArray(usize),
-            NewMap(usize, u8),
+            NewMap(usize),
             Json,
             Timezone,
         }
@@ -1179,6 +1179,17 @@ impl Value {
             })
         }
 
+        fn parse_key (bytes: &mut Cursor<u8>, huffman: Option<&Huffman<char>>) -> Result<String, ValueSerError> {
+            let byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
+            match ValueTy::try_from((byte & 0b1111_0000) >> 4)? {
+                ValueTy::String => parse_string(byte, bytes, huffman),
+                found => Err(ValueSerError::UnexpectedValueType {
+                    found,
+                    expected: ValueTy::String,
+                }),
+            }
+        }
+
         fn parse_primitive(bytes: &mut Cursor<u8>, huffman: Option<&Huffman<char>>) -> Result<ParseResult, ValueSerError> {
             let byte = bytes.next().ok_or(ValueSerError::NotEnoughBytes).copied()?;
 
@@ -1247,7 +1258,7 @@ impl Value {
                 }
                 ValueTy::Map => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
-                    return Ok(ParseResult::NewMap(len, byte));
+                    return Ok(ParseResult::NewMap(len));
                 }
                 ValueTy::Array => {
                     let len = Value::deser_array_or_map_len(byte, bytes, ty)?;
@@ -1286,7 +1297,7 @@ impl Value {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len, byte) => DeserialisationState::Map(HashMap::with_capacity(len), len, byte),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
@@ -1305,7 +1316,7 @@ impl Value {
                         }
                         Some(next_stack_frame) => {
                             match next_stack_frame {
-                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
+                                DeserialisationState::ValueNeeded | DeserialisationState::FoundValue(_) | DeserialisationState::Map(_, _) | DeserialisationState::FoundKeyValue(_, _) => return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::InvalidStackAfterValue)),
                                 DeserialisationState::FoundKey(key) => {
                                     stack.push(DeserialisationState::FoundKeyValue(key, val));
                                 }
@@ -1345,18 +1356,18 @@ impl Value {
                     stack.push(DeserialisationState::Array(so_far, left));
                     stack.push(DeserialisationState::ValueNeeded);
                 }
-                DeserialisationState::Map(so_far, left, byte) => {
-                    let key = parse_string(byte, bytes, huffman)?;
-                    stack.push(DeserialisationState::Map(so_far, left, byte));
+                DeserialisationState::Map(so_far, left) => {
+                    let key = parse_key(bytes, huffman)?;
+                    stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
-                    if let Some(DeserialisationState::Map(mut so_far, left, byte)) = stack.pop() {
+                    if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
                         so_far.insert(key, val);
                         if left <= 1 {
                             stack.push(DeserialisationState::FoundValue(Value::Map(so_far)));
                         } else {
-                            stack.push(DeserialisationState::Map(so_far, left - 1, byte));
+                            stack.push(DeserialisationState::Map(so_far, left - 1));
                         }
                     } else {
                         return Err(ValueSerError::InvalidDeserialisation(InvalidDeserialisationStateError::FoundKeyValueWithoutMap));
-- 
2.43.0


From 56d17e381366d45913bff0737dd3e698fe5fec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 11/32] fix: deserialise empty arrays and maps

---
 crates/sourisdb/src/values.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 6c9324b..ce03b65 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1296,6 +1296,8 @@ impl Value {
                 DeserialisationState::ValueNeeded => {
                     let to_be_added_to_stack = match parse_primitive(bytes, huffman)? {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
+                        ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
+                        ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
                         ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
                         ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
                         ParseResult::Json => {
-- 
2.43.0


From 41c3b53b1152df22e88e6d8d225f02ddf96e0bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 12/32] fix: allocate for the items of an array or map as they
 are found

---
 crates/sourisdb/src/values.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index ce03b65..04f7053 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1298,8 +1298,8 @@ impl Value {
                         ParseResult::Value(val) => DeserialisationState::FoundValue(val),
                         ParseResult::NewArray(0) => DeserialisationState::FoundValue(Value::Array(vec![])),
                         ParseResult::NewMap(0) => DeserialisationState::FoundValue(Value::Map(HashMap::new())),
-                        ParseResult::NewArray(len) => DeserialisationState::Array(Vec::with_capacity(len), len),
-                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::with_capacity(len), len),
+                        ParseResult::NewArray(len) => DeserialisationState::Array(vec![], len),
+                        ParseResult::NewMap(len) => DeserialisationState::Map(HashMap::new(), len),
                         ParseResult::Json => {
                             stack.push(DeserialisationState::JsonNeeded);
                             DeserialisationState::ValueNeeded
-- 
2.43.0


From 846a48227e959d001d95bf38cfd516267124144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 13/32] fix: hash equal maps and JSON values equally

---
 crates/sourisdb/src/values.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 04f7053..1a99cb7 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -248,13 +248,14 @@ impl Hash for Value {
                 v.hash(state);
             }
             Value::JSON(j) => {
-                j.to_string().hash(state);
+                j.hash(state);
             }
             Value::Map(m) => {
-                for k in m.keys() {
+                //equal maps can iterate in different orders
+                let mut entries: Vec<_> = m.iter().collect();
+                entries.sort_unstable_by_key(|(k, _)| *k);
+                for (k, v) in entries {
                     k.hash(state);
-                }
-                for v in m.values() {
                     v.hash(state);
                 }
             }
-- 
2.43.0


From 69221fe58ec18ce3f03248df48257077345441cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 14/32] fix: hash positive and negative zero equally

---
 crates/sourisdb/src/types/imaginary.rs | 6 ++++--
 crates/sourisdb/src/values.rs          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index c4c7e2e..105212d 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -53,7 +53,8 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                modulus.to_le_bytes().hash(state);
+                //positive and negative zero are equal
+                if *modulus == 0.0 { 0.0 } else { *modulus }.to_le_bytes().hash(state);
 
                 match argument.classify() {
                     FpCategory::Nan => 0,
@@ -63,7 +64,8 @@ impl Hash for Imaginary {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                argument.to_le_bytes().hash(state);
+                //positive and negative zero are equal
+                if *argument == 0.0 { 0.0 } else { *argument }.to_le_bytes().hash(state);
             }
         }
     }
diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 1a99cb7..4edf6ff 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -273,7 +273,8 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                //positive and negative zero are equal
+                if *f == 0.0 { 0.0 } else { *f }.to_le_bytes().hash(state);
             }
             Value::Null(()) => {}
             Value::Timezone(tz) => {
@@ -294,7 +295,8 @@ impl Hash for Value {
                     FpCategory::Normal => 4,
                 }
                 .hash(state);
-                f.to_le_bytes().hash(state);
+                //positive and negative zero are equal
+                if *f == 0.0 { 0.0 } else { *f }.to_le_bytes().hash(state);
             }
         }
     }
-- 
2.43.0


From 8c3671eed403622e9d9af344bc4d7852344c763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 15/32] fix: import the timestamps which are exported to JSON

---
 crates/sourisdb/src/values.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 4edf6ff..421be01 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -813,7 +813,15 @@ impl Value {
                             }
                             ValueTy::Timestamp => {
                                 if let Some(SJValue::String(timestamp)) = obj.get("timestamp") {
-                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp) {
+                                    //exports separate the date from the time with a space
+                                    if let Ok(timestamp) = NaiveDateTime::from_str(timestamp)
+                                        .or_else(|_| {
+                                            NaiveDateTime::parse_from_str(
+                                                timestamp,
+                                                "%Y-%m-%d %H:%M:%S%.f",
+                                            )
+                                        })
+                                    {
                                         Ok(Value::Timestamp(timestamp))
                                     } else {
                                         Err(ValueSerError::InvalidSourisType {
-- 
2.43.0


From 87793c21876eeea6a0bc838545f3b4d635c967a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 16/32] fix: deserialise timestamps with a leap second in any
 second

---
 crates/sourisdb/src/values.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 421be01..26e4494 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1238,7 +1238,9 @@ impl Value {
                     let sec = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
                     let ns = Integer::deser(SignedState::Unsigned, bytes)?.try_into()?;
 
-                    let time = NaiveTime::from_hms_nano_opt(hour, min, sec, ns)
+                    //leap seconds can be in any second, so the nanoseconds are set separately
+                    let time = NaiveTime::from_hms_opt(hour, min, sec)
+                        .and_then(|t| t.with_nanosecond(ns))
                         .ok_or(ValueSerError::InvalidDateOrTime)?;
 
                     Value::Timestamp(NaiveDateTime::new(date, time))
-- 
2.43.0


From 22974349127910fc928270c67d4d7e97f496a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 17/32] fix: refuse to decompress into more memory than the
 compressed bytes could need

---
 crates/sourisdb/src/types/binary/lz.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/binary/lz.rs b/crates/sourisdb/src/types/binary/lz.rs
index c61b3a3..a3b3ccc 100644
--- a/crates/sourisdb/src/types/binary/lz.rs
+++ b/crates/sourisdb/src/types/binary/lz.rs
@@ -35,11 +35,16 @@ pub fn un_lz(cursor: &mut Cursor<u8>) -> Result<Vec<u8>, BinarySerError> {
         return Ok(vec![]);
     }
 
-    let compressed_len = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
+    let compressed_len: usize = Integer::deser(SignedState::Unsigned, cursor)?.try_into()?;
     let compressed = cursor
         .read(compressed_len)
         .ok_or(BinarySerError::NotEnoughBytes)?;
 
+    //each compressed byte can stand for no more than 255 bytes
+    if input_len > compressed_len.saturating_mul(255) {
+        return Err(BinarySerError::NotEnoughBytes);
+    }
+
     Ok(decompress(compressed, input_len)?)
 }
 
-- 
2.43.0


From e1e65e36aa9cfa930e34be1c2d5288999d3543e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 18/32] fix: report whether adding a database with content
 created it

---
 crates/sourisd/src/v1_routes/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 711d141..62bbebb 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -89,7 +89,7 @@ impl SourisState {
         self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
 
-        let created_new = dbs.contains_key(&name);
+        let already_existed = dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
         if overwrite_existing {
             *current = contents;
@@ -99,7 +99,7 @@ impl SourisState {
             }
         }
 
-        if created_new {
+        if !already_existed {
             StatusCode::CREATED
         } else {
             StatusCode::OK
-- 
2.43.0


From f0dbd2d981517ba82568edb5b0eb3c117e775aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 19/32] fix: invalidate cached databases whilst holding the
 lock

---
 crates/sourisd/src/v1_routes/state.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 62bbebb..1378456 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -86,8 +86,9 @@ impl SourisState {
         overwrite_existing: bool,
         contents: Store,
     ) -> StatusCode {
-        self.db_cache.invalidate(&name).await;
         let mut dbs = self.dbs.lock().await;
+        //whilst locked, as otherwise the old contents could be cached again before they change
+        self.db_cache.invalidate(&name).await;
 
         let already_existed = dbs.contains_key(&name);
         let current = dbs.entry(name).or_default();
@@ -109,9 +110,8 @@ impl SourisState {
     ///returns whether it cleared a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn clear_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if let SEntry::Occupied(mut e) = dbs.entry(name) {
             e.insert(Store::default());
@@ -125,9 +125,8 @@ impl SourisState {
     ///returns whether it removed a database
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn remove_db(&self, name: String) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&name).await;
-
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&name).await;
 
         if !dbs.contains_key(&name) {
             return Err(SourisError::DatabaseNotFound);
@@ -170,9 +169,9 @@ impl SourisState {
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
     ) -> CreationResult {
+        let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        let mut dbs = self.dbs.lock().await;
         match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
@@ -220,8 +219,8 @@ impl SourisState {
     }
 
     pub async fn remove_key(&self, KeyAndDb { key, db_name }: KeyAndDb) -> Result<(), SourisError> {
-        self.db_cache.invalidate(&db_name).await;
         let mut dbs = self.dbs.lock().await;
+        self.db_cache.invalidate(&db_name).await;
 
         let Some(db) = dbs.get_mut(&db_name) else {
             return Err(SourisError::DatabaseNotFound);
-- 
2.43.0


From 0c0d921c4b4a2a27ed7a28aa3bb640ad48311b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 20/32] fix: remove a database together with its file

---
 crates/sourisd/src/v1_routes/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 1378456..327bbbe 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -132,9 +132,6 @@ impl SourisState {
             return Err(SourisError::DatabaseNotFound);
         }
 
-        dbs.remove(&name);
-        drop(dbs);
-
         let file_name = self.base_location.join(format!("{name}.sdb"));
 
         if let Err(e) = tokio::fs::remove_file(file_name).await {
@@ -143,6 +140,9 @@ impl SourisState {
             }
         }
 
+        //still locked, so that the file of a new database with this name cannot be removed
+        dbs.remove(&name);
+
         Ok(())
     }
 
-- 
2.43.0


From 90d2f9fd85dd1431071c3bf53f15c8b1b4f3ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 21/32] fix: keep removed databases removed after a restart

---
 crates/sourisd/src/v1_routes/state.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 327bbbe..3031474 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -240,13 +240,13 @@ impl SourisState {
 impl SourisState {
     pub async fn new() -> color_eyre::Result<Self> {
         #[tracing::instrument(level = "trace")]
-        async fn get_store(location: PathBuf) -> color_eyre::Result<Store> {
+        async fn get_store(location: PathBuf) -> color_eyre::Result<Option<Store>> {
             let mut file = match File::open(&location).await {
                 Ok(f) => f,
                 Err(e) => {
                     return if e.kind() == ErrorKind::NotFound {
-                        trace!(?location, "File not found, getting empty store.");
-                        return Ok(Store::default());
+                        trace!(?location, "File not found.");
+                        return Ok(None);
                     } else {
                         Err(e.into())
                     };
@@ -265,7 +265,7 @@ impl SourisState {
                 }
             }
 
-            Ok(Store::deser(&contents)?)
+            Ok(Some(Store::deser(&contents)?))
         }
 
         #[tracing::instrument(level = "trace", skip(meta))]
@@ -287,7 +287,11 @@ impl SourisState {
                 };
 
                 match get_store(base.join(format!("{file_name}.sdb"))).await {
-                    Ok(s) => {
+                    Ok(None) => {
+                        //every saved database has a file, so this was removed after the last save
+                        trace!(?file_name, "Database no longer exists");
+                    }
+                    Ok(Some(s)) => {
                         dbs.insert(file_name.to_string(), s);
                     }
                     Err(e) => {
@@ -313,7 +317,9 @@ impl SourisState {
             base_location.join("souris/")
         };
 
-        let mut meta = get_store(base_location.join(META_DB_FILE_NAME)).await?;
+        let mut meta = get_store(base_location.join(META_DB_FILE_NAME))
+            .await?
+            .unwrap_or_default();
 
         let dbs = if let Some(dbs) = get_internal_stores(&meta, base_location.clone()).await {
             dbs
-- 
2.43.0


From 102a7ce3a6e8c741082a73d5ef850b5dd33c5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 22/32] fix: keep the last saved version of databases which
 cannot be written

---
 crates/sourisd/src/v1_routes/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 3031474..58ba9ea 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -346,9 +346,9 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
-            } else {
-                names.push(Value::String(name.to_string()));
             }
+            //even if it couldn't be written, as there can be a file from an earlier save
+            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
-- 
2.43.0


From e95b7e24e4f40deeafebea1fa945302963ecc9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 23/32] fix: replace saved files atomically

---
 crates/sourisd/src/v1_routes/state.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 58ba9ea..d0c89d1 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -12,7 +12,7 @@ use std::{
 };
 use sourisdb::hashbrown::hash_map::Entry as HBEntry;
 use tokio::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, rename, File},
     io::{AsyncReadExt, AsyncWriteExt, ErrorKind},
     sync::Mutex,
 };
@@ -24,11 +24,13 @@ fn running_with_superuser() -> bool {
 mod meta {
     ///File name for the database that stores the meta information
     pub const META_DB_FILE_NAME: &str = "meta.sdb";
+    ///File name for the file which is written to before replacing another file. Databases are stored in files with a different extension.
+    pub const TEMPORARY_FILE_NAME: &str = "save.tmp";
     ///Name of the key inside the meta information database that stores the array of databases
     pub const DB_FILE_NAMES_KEY: &str = "existing_dbs";
 }
 use crate::{error::SourisError, v1_routes::value::KeyAndDb};
-use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME};
+use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME, TEMPORARY_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
@@ -360,12 +362,14 @@ impl SourisState {
     }
 }
 
+///Replaces a file in one step, so that an error or a crash leaves either the old or the new contents.
 async fn write_to_file(
     bytes: &[u8],
     path: impl AsRef<Path> + Debug,
     base_location: impl AsRef<Path> + Debug,
 ) -> color_eyre::Result<()> {
-    let mut file = match File::create(&path).await {
+    let temporary = base_location.as_ref().join(TEMPORARY_FILE_NAME);
+    let mut file = match File::create(&temporary).await {
         Ok(f) => f,
         Err(e) => {
             if e.kind() == ErrorKind::NotFound {
@@ -373,7 +377,7 @@ async fn write_to_file(
                 trace!(?path, ?base_location, "Unable to find folder, creating");
 
                 create_dir_all(&base_location).await?;
-                File::create(path).await?
+                File::create(&temporary).await?
             } else {
                 return Err(e.into());
             }
@@ -381,6 +385,9 @@ async fn write_to_file(
     };
 
     file.write_all(bytes).await?;
+    file.flush().await?;
+    file.sync_all().await?;
+    rename(temporary, path).await?;
 
     Ok(())
 }
-- 
2.43.0


From a00dcddc6a2a78c99eb0d611fde5ce072b5850f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:34 +0000
Subject: [PATCH 24/32] fix: check the names of databases in every request
 which creates one

---
 crates/sourisd/src/error.rs           |  2 +-
 crates/sourisd/src/v1_routes/db.rs    |  4 +--
 crates/sourisd/src/v1_routes/state.rs | 36 +++++++++++++++++++--------
 crates/sourisd/src/v1_routes/value.rs |  6 ++---
 4 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/crates/sourisd/src/error.rs b/crates/sourisd/src/error.rs
index d638bfb..95dce9c 100644
--- a/crates/sourisd/src/error.rs
+++ b/crates/sourisd/src/error.rs
@@ -64,7 +64,7 @@ impl Display for SourisError {
             Self::ValueError(e) => write!(f, "Error with value: {e}"),
             Self::InvalidDatabaseName => write!(
                 f,
-                "Invalid database name - database names must be ASCII and not equal to `meta`"
+                "Invalid database name - database names must be ASCII, not equal to `meta`, and usable as the name of a file"
             ),
             Self::IntegerSerError(e) => write!(f, "Error deserialising integer: {e:?}"),
         }
diff --git a/crates/sourisd/src/v1_routes/db.rs b/crates/sourisd/src/v1_routes/db.rs
index f69b819..7da287e 100644
--- a/crates/sourisd/src/v1_routes/db.rs
+++ b/crates/sourisd/src/v1_routes/db.rs
@@ -40,9 +40,9 @@ pub async fn add_db_with_content(
     body: Bytes,
 ) -> Result<StatusCode, SourisError> {
     let store = Store::deser(body.as_ref())?;
-    Ok(state
+    state
         .new_db_with_contents(name, overwrite_existing, store)
-        .await)
+        .await
 }
 
 pub async fn clear_db(
diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index d0c89d1..4c96573 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -34,6 +34,18 @@ use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME, TEMPORARY_FILE_NAME};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
+///Checks that a database can have this name, and that its file will be directly inside the base location.
+fn check_db_name(name: &str) -> Result<(), SourisError> {
+    if name == "meta"
+        || !name.is_ascii()
+        || name.contains(|c| std::path::is_separator(c) || c == '\0')
+    {
+        Err(SourisError::InvalidDatabaseName)
+    } else {
+        Ok(())
+    }
+}
+
 #[derive(Clone, Debug)]
 #[allow(clippy::module_name_repetitions)]
 pub struct SourisState {
@@ -50,16 +62,14 @@ impl SourisState {
     /// Returns [`StatusCode::OK`] if an existing database was present, or [`StatusCode::CREATED`] if a new database was created.
     ///
     /// ## Errors
-    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII or the name is `meta`.
+    /// - [`SourisError::InvalidDatabaseName`] if the name is not ASCII, the name is `meta` or the name could not be that of a file.
     #[tracing::instrument(level = "trace", skip(self))]
     pub async fn new_db(
         &self,
         name: String,
         overwrite_existing: bool,
     ) -> Result<StatusCode, SourisError> {
-        if name == "meta" || !name.is_ascii() {
-            return Err(SourisError::InvalidDatabaseName);
-        }
+        check_db_name(&name)?;
 
         let mut dbs = self.dbs.lock().await;
         
@@ -87,7 +97,9 @@ impl SourisState {
         name: String,
         overwrite_existing: bool,
         contents: Store,
-    ) -> StatusCode {
+    ) -> Result<StatusCode, SourisError> {
+        check_db_name(&name)?;
+
         let mut dbs = self.dbs.lock().await;
         //whilst locked, as otherwise the old contents could be cached again before they change
         self.db_cache.invalidate(&name).await;
@@ -103,9 +115,9 @@ impl SourisState {
         }
 
         if !already_existed {
-            StatusCode::CREATED
+            Ok(StatusCode::CREATED)
         } else {
-            StatusCode::OK
+            Ok(StatusCode::OK)
         }
     }
 
@@ -170,11 +182,15 @@ impl SourisState {
         &self,
         NewKeyArgs { db_name, key, create_new_database, overwrite_key }: NewKeyArgs,
         v: Value,
-    ) -> CreationResult {
+    ) -> Result<CreationResult, SourisError> {
+        if create_new_database {
+            check_db_name(&db_name)?;
+        }
+
         let mut dbs = self.dbs.lock().await;
         self.db_cache.invalidate(&db_name).await;
 
-        match dbs.entry(db_name) {
+        Ok(match dbs.entry(db_name) {
             SEntry::Occupied(mut occ) => {
                 let db = occ.get_mut();
                 match db.entry(key) {
@@ -201,7 +217,7 @@ impl SourisState {
                     CreationResult::UnableToFindDB
                 }
             }
-        }
+        })
     }
 
     pub async fn get_value(
diff --git a/crates/sourisd/src/v1_routes/value.rs b/crates/sourisd/src/v1_routes/value.rs
index 6bfa84c..4c789bb 100644
--- a/crates/sourisd/src/v1_routes/value.rs
+++ b/crates/sourisd/src/v1_routes/value.rs
@@ -24,10 +24,10 @@ pub async fn add_kv(
     Query(nka): Query<NewKeyArgs>,
     State(state): State<SourisState>,
     value: Value,
-) -> Json<CreationResult> {
+) -> Result<Json<CreationResult>, SourisError> {
     info!(?value, "Adding value");
-    let cr = state.add_key_value_pair(nka, value).await;
-    Json(cr)
+    let cr = state.add_key_value_pair(nka, value).await?;
+    Ok(Json(cr))
 }
 
 #[axum::debug_handler]
-- 
2.43.0


From 7628db2f8a0ab599a7b8e955d181bdb1d83e3d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 25/32] fix: ask for the store by name in the async client

---
 crates/sourisdb/src/client/async_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index e87a755..6ed1fa0 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -184,7 +184,7 @@ impl AsyncClient {
         let rsp = self
             .client
             .get(&format!("http://{}:{}/v1/get_db", self.path, self.port))
-            .query(&["db_name", db_name])
+            .query(&[("db_name", db_name)])
             .send()
             .await?;
         
-- 
2.43.0


From f66aecadd2e9059fea765939b05c0b3213c85fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 26/32] fix: enter single floats as single floats

---
 crates/mouse/src/value_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mouse/src/value_utils.rs b/crates/mouse/src/value_utils.rs
index ca57116..e20b66c 100644
--- a/crates/mouse/src/value_utils.rs
+++ b/crates/mouse/src/value_utils.rs
@@ -300,8 +300,8 @@ pub fn get_value_from_stdin(prompt: impl Display, theme: &dyn Theme) -> Result<V
             Value::DoubleFloat(f)
         }
         ValueTy::SingleFloat => {
-            let f: f64 = Input::with_theme(theme).with_prompt("Value:").interact()?;
-            Value::DoubleFloat(f)
+            let f: f32 = Input::with_theme(theme).with_prompt("Value:").interact()?;
+            Value::SingleFloat(f)
         }
         ValueTy::Timezone => {
             let chosen_index = FuzzySelect::with_theme(theme)
-- 
2.43.0


From ebeda74038a22cd32eb3b61f485337b0e28013fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 27/32] fix: deserialise the value of a map's key

---
 crates/sourisdb/src/values.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/sourisdb/src/values.rs b/crates/sourisdb/src/values.rs
index 26e4494..2933da5 100644
--- a/crates/sourisdb/src/values.rs
+++ b/crates/sourisdb/src/values.rs
@@ -1375,6 +1375,7 @@ impl Value {
                     let key = parse_key(bytes, huffman)?;
                     stack.push(DeserialisationState::Map(so_far, left));
                     stack.push(DeserialisationState::FoundKey(key));
+                    stack.push(DeserialisationState::ValueNeeded);
                 },
                 DeserialisationState::FoundKeyValue(key, val) => {
                     if let Some(DeserialisationState::Map(mut so_far, left)) = stack.pop() {
-- 
2.43.0


From 2f7e6ad7bea9bbdd59c8b4c145f3b4c107535d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 28/32] fix: removing an entry which is not there is not an
 error in the clients

---
 crates/sourisdb/src/client/async_client.rs | 12 ++++++++----
 crates/sourisdb/src/client/sync_client.rs  | 11 ++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/sourisdb/src/client/async_client.rs b/crates/sourisdb/src/client/async_client.rs
index 6ed1fa0..0d92075 100644
--- a/crates/sourisdb/src/client/async_client.rs
+++ b/crates/sourisdb/src/client/async_client.rs
@@ -349,13 +349,17 @@ impl AsyncClient {
         database_name: &str,
         key: &str,
     ) -> Result<(), ClientError> {
-        self.client
+        let rsp = self.client
             .post(&format!("http://{}:{}/v1/rm_kv", self.path, self.port))
             .query(&[("db_name", database_name), ("key", key)])
             .send()
-            .await?
-            .error_for_status_to_client_error()?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
-        Ok(())
+            .await?; //TODO: fixme as to whether anything happened - use StatusCode::Gone?
+
+        match rsp.status() {
+            //no such database, or no such key
+            StatusCode::GONE | StatusCode::BAD_REQUEST => Ok(()),
+            _ => rsp.error_for_status_to_client_error().map(|_| ()),
+        }
     }
 
     ///Removes a given database. Returns whether we actually removed anything
diff --git a/crates/sourisdb/src/client/sync_client.rs b/crates/sourisdb/src/client/sync_client.rs
index b02f49e..dc22591 100644
--- a/crates/sourisdb/src/client/sync_client.rs
+++ b/crates/sourisdb/src/client/sync_client.rs
@@ -128,12 +128,17 @@ impl SyncClient {
 
     #[allow(clippy::result_large_err)]
     pub fn remove_entry_from_db(&self, database_name: &str, key: &str) -> Result<(), ClientError> {
-        self.agent
+        let result = self.agent
             .post(&format!("http://{}:{}/v1/rm_kv", self.path, self.port))
             .query("db_name", database_name)
             .query("key", key) //TODO: fixme as to whether anything happened
-            .call()?;
-        Ok(())
+            .call();
+
+        match result.map_err(ClientError::from) {
+            //no such database, or no such key
+            Ok(_) | Err(ClientError::HttpErrorCode(StatusCode::GONE | StatusCode::BAD_REQUEST)) => Ok(()),
+            Err(e) => Err(e),
+        }
     }
 
     #[allow(clippy::result_large_err)]
-- 
2.43.0


From a7b9430b0c9b012ca205ac9268c1199b4a1772da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 29/32] fix: refuse names of databases too long for the name of
 a file

---
 crates/sourisd/src/v1_routes/state.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index 4c96573..bfd617a 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -26,11 +26,18 @@ mod meta {
     pub const META_DB_FILE_NAME: &str = "meta.sdb";
     ///File name for the file which is written to before replacing another file. Databases are stored in files with a different extension.
     pub const TEMPORARY_FILE_NAME: &str = "save.tmp";
+    ///The length of `.sdb`, which is added to the name of a database to get the name of its file
+    pub const DB_FILE_EXTENSION_LEN: usize = 4;
+    ///The most bytes the name of a file can have
+    pub const MAX_FILE_NAME_LEN: usize = 255;
     ///Name of the key inside the meta information database that stores the array of databases
     pub const DB_FILE_NAMES_KEY: &str = "existing_dbs";
 }
 use crate::{error::SourisError, v1_routes::value::KeyAndDb};
-use meta::{DB_FILE_NAMES_KEY, META_DB_FILE_NAME, TEMPORARY_FILE_NAME};
+use meta::{
+    DB_FILE_EXTENSION_LEN, DB_FILE_NAMES_KEY, MAX_FILE_NAME_LEN, META_DB_FILE_NAME,
+    TEMPORARY_FILE_NAME,
+};
 use sourisdb::client::CreationResult;
 use crate::v1_routes::value::NewKeyArgs;
 
@@ -39,6 +46,7 @@ fn check_db_name(name: &str) -> Result<(), SourisError> {
     if name == "meta"
         || !name.is_ascii()
         || name.contains(|c| std::path::is_separator(c) || c == '\0')
+        || name.len() + DB_FILE_EXTENSION_LEN > MAX_FILE_NAME_LEN
     {
         Err(SourisError::InvalidDatabaseName)
     } else {
-- 
2.43.0


From 07a2cd246ab9ca78020a477e5a4cc7b306d6e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 30/32] fix: the polar form of zero has an argument

---
 crates/sourisdb/src/types/imaginary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sourisdb/src/types/imaginary.rs b/crates/sourisdb/src/types/imaginary.rs
index 105212d..0d23f79 100644
--- a/crates/sourisdb/src/types/imaginary.rs
+++ b/crates/sourisdb/src/types/imaginary.rs
@@ -182,7 +182,7 @@ impl Imaginary {
     /// assert!((argument - expected_argument).abs() < f64::EPSILON);
     pub fn polar_from_cartesian(real: f64, imaginary: f64) -> Self {
         let modulus = real.hypot(imaginary);
-        let phi = (imaginary.abs() / real.abs()).atan();
+        let phi = imaginary.abs().atan2(real.abs());
         let argument = match (real.is_sign_negative(), imaginary.is_sign_negative()) {
             (true, true) => -PI + phi,
             (true, false) => PI - phi,
-- 
2.43.0


From ff43f8ee129c8dd3f4b3bc03f95805ed8456baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 31/32] fix: save once more after the last request was answered

---
 crates/sourisd/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sourisd/src/main.rs b/crates/sourisd/src/main.rs
index e06e473..cf31419 100644
--- a/crates/sourisd/src/main.rs
+++ b/crates/sourisd/src/main.rs
@@ -148,4 +148,9 @@ async fn main() {
         .with_graceful_shutdown(shutdown_signal(stop_tx, saver))
         .await
         .unwrap();
+
+    //requests are still taken and answered during and after the saver's last save
+    if let Err(e) = state.save().await {
+        error!(?e, "Error saving state");
+    }
 }
-- 
2.43.0


From 6ec9c6a4296f72dd0f39b546363242b1e3d3625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 32/32] fix: do not list a new database whose file is left over
 from an uncompleted save

---
 crates/sourisd/src/v1_routes/state.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/sourisd/src/v1_routes/state.rs b/crates/sourisd/src/v1_routes/state.rs
index bfd617a..17704b4 100644
--- a/crates/sourisd/src/v1_routes/state.rs
+++ b/crates/sourisd/src/v1_routes/state.rs
@@ -4,7 +4,7 @@ use dirs::data_dir;
 use moka::future::Cache;
 use sourisdb::{store::Store, values::Value};
 use std::{
-    collections::{HashMap, hash_map::Entry as SEntry},
+    collections::{HashMap, HashSet, hash_map::Entry as SEntry},
     env::var,
     fmt::Debug,
     path::{Path, PathBuf},
@@ -61,6 +61,8 @@ pub struct SourisState {
     base_location: PathBuf,
     ///A map of all databases and their names
     dbs: Arc<Mutex<HashMap<String, Store>>>,
+    ///The names of the databases which were read when starting or written since then. Files of other databases can be left over from a save which was not completed.
+    saved: Arc<Mutex<HashSet<String>>>,
     db_cache: Cache<String, Bytes>,
 }
 
@@ -354,8 +356,10 @@ impl SourisState {
             HashMap::default()
         };
 
+        let saved = dbs.keys().cloned().collect();
         let s = Self {
             base_location,
+            saved: Arc::new(Mutex::new(saved)),
             dbs: Arc::new(Mutex::new(dbs)),
             db_cache: Cache::new(200),
         };
@@ -365,6 +369,7 @@ impl SourisState {
 
     pub async fn save(&self) -> color_eyre::Result<()> {
         let mut names = vec![];
+        let mut saved = self.saved.lock().await;
 
         for (name, db) in self.dbs.lock().await.iter() {
             let file_name = self.base_location.join(format!("{name}.sdb"));
@@ -372,9 +377,13 @@ impl SourisState {
 
             if let Err(e) = write_to_file(&bytes, file_name, &self.base_location).await {
                 error!(?e, "Error writing out database");
+            } else {
+                saved.insert(name.to_string());
+            }
+            //even if it couldn't be written now, as there can be a file from an earlier save
+            if saved.contains(name) {
+                names.push(Value::String(name.to_string()));
             }
-            //even if it couldn't be written, as there can be a file from an earlier save
-            names.push(Value::String(name.to_string()));
         }
 
         let mut meta = Store::default();
-- 
2.43.0

