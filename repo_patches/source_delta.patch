From 8c8b1618504585cbd39e823d836ffebaacc20efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 01/15] fix: reject long frames whose length is too small for
 control and address

A length byte of 0 or 1 underflowed: a panic with overflow checks, a 254/255
byte payload without.
---
 src/parse/link_layer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 08a323b..37ca6fb 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -139,6 +139,8 @@ where
 		+ Clone,
 {
 	let length = binary::u8
+		// It has to cover the `control` and `address` bytes at the very least
+		.verify(|v| *v >= 2)
 		.context(StrContext::Label("length"))
 		.parse_next(input)?;
 	binary::u8
-- 
2.43.0


From 2b1f22b4e8ca9962608a5a42660aecaf921802d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 02/15] fix: report secondary function 15 as link not
 implemented

---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 37ca6fb..3b54019 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -107,7 +107,7 @@ impl Control {
 						9 => SecondaryControlMessage::UserDataUnavailable,
 						11 => SecondaryControlMessage::Status,
 						14 => SecondaryControlMessage::LinkNotFunctioning,
-						15 => SecondaryControlMessage::LinkNotFunctioning,
+						15 => SecondaryControlMessage::LinkNotImplemented,
 						_ => return None,
 					},
 				}
-- 
2.43.0


From ee1400e00aae46f32b60b156d9b7753f5c017a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 03/15] fix: accept the header-less CI fields 50h-52h

The message dispatch handles them but the header dispatch rejected them as
reserved.
---
 src/parse/transport_layer/control_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index cf17a49..6e4304b 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -64,6 +64,7 @@ impl MBusMessage {
 
 		let header = match ci {
 			0x00..=0x1F
+			| 0x50..=0x52
 			| 0x54
 			| 0x5C
 			| 0x66
-- 
2.43.0


From a15f65ab786a97c70ff53ae2e298edbf13234bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 04/15] fix: return an error instead of panicking on
 unsupported CI fields

---
 src/parse/transport_layer/control_info.rs | 25 ++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index 6e4304b..ded0930 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -168,15 +168,34 @@ impl MBusMessage {
 			0x6D => Self::TimeAdjustmentToDevice(header, parse_remaining.parse_next(input)?),
 			// Actual mbus
 			0x51 | 0x5A | 0x5B => Self::CommandToDevice(header, parse_remaining.parse_next(input)?),
-			0x69..=0x6B => todo!("format frame"),
+			0x69..=0x6B => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("CI field, format frames are not supported"),
+				));
+			}
 			0x6E..=0x70 => Self::ApplicationErrorFromDevice(
 				header,
 				ApplicationErrorMessage::parse.parse_next(input)?,
 			),
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
-			0x73 | 0x79 | 0x7B => todo!("compact frame"),
-			_ => unreachable!(),
+			0x73 | 0x79 | 0x7B => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("CI field, compact frames are not supported"),
+				));
+			}
+			// Notably 0x64, 0x65, 0x84 & 0x85, which have headers but no message type
+			_ => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("unsupported CI field"),
+				));
+			}
 		})
 	}
 }
-- 
2.43.0


From 2cbf7da10d63c428fb1f4b369c7bdc74f244d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 05/15] fix: read the security mode from bits 8-12 of the
 configuration field

The mode is in the low five bits of the high byte (EN 13757-7:2018 7.5), eg
mode 5 is 2520h. The top five bits were read instead.
---
 src/parse/transport_layer/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 1bdc7a1..0fce7a7 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -105,10 +105,10 @@ impl SecurityMode {
 			.parse_next(input)?;
 		(binary::bits::bits::<_, _, MBusError, _, _>((
 			binary::bits::take(8_usize).context(StrContext::Label("Security mode info low")),
-			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 			binary::bits::take(3_usize).context(StrContext::Label("Security mode info high")),
+			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 		)))
-		.verify_map(|(info_low, security_mode, info_high): (u8, u8, u8)| {
+		.verify_map(|(info_low, info_high, security_mode): (u8, u8, u8)| {
 			match security_mode {
 				0 => {
 					if info_high == 0 && info_low == 0 {
-- 
2.43.0


From 89f4dc52b9d97e2e3b1c949b71e83f198f9020f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 06/15] fix: return an error instead of panicking on encrypted
 telegrams

---
 src/parse/transport_layer/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 0fce7a7..8ed9dd2 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -119,7 +119,8 @@ impl SecurityMode {
 				}
 				// libmbus strikes again
 				6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(raw_value)),
-				_ => todo!("Packet encryption is not yet supported (mode {security_mode})"),
+				// TODO: Packet encryption is not yet supported
+				_ => None,
 			}
 		})
 		.parse_next(input)
-- 
2.43.0


From 01b79d3672bfc5f5c7e742f4ff536e9ceff81ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 07/15] fix: return an error for more than 10 DIFEs

This is data from the wire, the assertion error panics in debug builds.
---
 src/parse/application_layer/dib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 5fcf55f..0e56f33 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -5,7 +5,8 @@
 use crate::parse::error::{MBResult, MBusError};
 use crate::parse::types::BitsInput;
 use winnow::binary::bits;
-use winnow::error::{ParserError, StrContext};
+use winnow::error::{AddContext, ParserError, StrContext};
+use winnow::stream::Stream;
 use winnow::Parser;
 
 #[derive(Debug, Clone, Copy)]
@@ -95,7 +96,11 @@ impl DataInfoBlock {
 		let mut i = 1;
 		while extension {
 			if i > 10 {
-				return Err(MBusError::assert(input, "Packet has more than 10 DIFEs!"));
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&input.checkpoint(),
+					StrContext::Label("DIF, packet has more than 10 DIFEs"),
+				));
 			}
 
 			let mut dife_device: u16;
-- 
2.43.0


From fb32659a5d78bee9eb3382190876b58090eab758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 08/15] fix: DIFE storage, tariff and device bits were shifted
 wrongly

---
 src/parse/application_layer/dib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 0e56f33..2788e72 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -122,9 +122,12 @@ impl DataInfoBlock {
 				break;
 			}
 
-			dife_device <<= i;
-			dife_tariff <<= 2 * i;
-			dife_storage <<= 4 * i;
+			// NOTE: `i` is one-based. The DIF only has the first storage bit, so
+			// the first DIFE starts at bit 0 of the device & tariff but bit 1 of
+			// the storage number.
+			dife_device <<= i - 1;
+			dife_tariff <<= 2 * (i - 1);
+			dife_storage <<= 4 * (i - 1) + 1;
 			i += 1;
 
 			device += dife_device;
-- 
2.43.0


From 93bf3b0ffc02c655d853dcc77874055d27a5c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 09/15] fix: type K local deviation halves were swapped

As with the year of the date types the upper bits of the first byte are the
least significant ones. The other way around the value is up to 59 and can
never be 31.
---
 src/parse/types/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 75fe821..aa3eae0 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -511,7 +511,7 @@ impl TypeKDST {
 				} else {
 					-dst_deviation
 				},
-				local_deviation: gmt_l + (gmt_u << 3),
+				local_deviation: gmt_u + (gmt_l << 3),
 			},
 		)
 		.verify(|v| matches!(v.local_deviation, 0..=23 | 31))
-- 
2.43.0


From d99d42b93ab8c7299dcd6f39bf6bf7f9faa7e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 10/15] fix: only decode type K when the record has four bytes
 of data

It always consumed four bytes regardless of the size in the DIF, which
misaligned every following record.
---
 src/parse/application_layer/record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 21041f7..6cad449 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -139,6 +139,10 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::Binary(5) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
+		ValueType::DSTTypeK => match dib.raw_type {
+			RawDataType::Binary(4) => ValueType::DSTTypeK,
+			_ => ValueType::Invalid(vif!(E111 0010)),
+		},
 		vt => vt,
 	};
 	vib
-- 
2.43.0


From 934cc1a8d71d04728303322273ab2c436aafa710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 11/15] fix: don't sniff byte order marks in latin-1 strings

Strings which started with the bytes FFFE, FEFF or EFBBBF were decoded as
UTF-16 or UTF-8.
---
 src/parse/types/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/string.rs b/src/parse/types/string.rs
index 759a174..67135b7 100644
--- a/src/parse/types/string.rs
+++ b/src/parse/types/string.rs
@@ -29,7 +29,7 @@ pub fn parse_latin1<'a>(num_bytes: usize) -> impl Parser<&'a Bytes, String, MBus
 			repeat::<_, _, (), _, _>(num_bytes, binary::u8)
 				.context(StrContext::Label("latin-1 string"))
 				.take()
-				.map(|data| WINDOWS_1252.decode(data).0.chars().rev().collect())
+				.map(|data| WINDOWS_1252.decode_without_bom_handling(data).0.chars().rev().collect())
 				.parse_next(input)
 		}
 	}
-- 
2.43.0


From 4a8d4458a607de81c5b1c71b585590e1b6ca1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 12/15] fix: accept zero as a positive LVAR BCD number

---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 6cad449..4abdf8e 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -84,7 +84,7 @@ impl Record {
 							parse_latin1(n).map(DataType::String).parse_next(input)?
 						}
 						n @ 0xC0..=0xC9 => parse_bcd(n - 0xC0)
-							.verify(|v| *v > 0)
+							.verify(|v| *v >= 0)
 							.map(DataType::Signed)
 							.parse_next(input)?,
 						n @ 0xD0..=0xD9 => parse_bcd(n - 0xD0)
-- 
2.43.0


From 48badfa661c1e15c67878ceff219408366348780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 13/15] fix: reject the device identification F0000000

---
 src/parse/transport_layer/header.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 8ed9dd2..5d78d49 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -300,6 +300,9 @@ impl LongHeader {
 			parse_bcd(4)
 				.try_map(u32::try_from)
 				.with_taken()
+				// `parse_bcd` reads a leading F as a minus sign, but there is no
+				// such thing as device -0
+				.verify(|(_, raw): &(u32, &[u8])| raw[3] < 0xA0)
 				.context(StrContext::Label("device identifier")),
 			binary::le_u16
 				.verify_map(|raw| {
-- 
2.43.0


From ce9e0d93ffcb0cbb42511960e567b0803ab1a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 14/15] fix: report a missing control byte as incomplete on
 partial input

The bit parser's error type couldn't represent 'incomplete', so a buffer
ending right before the control byte was rejected instead
---
 src/parse/link_layer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 3b54019..a0a2782 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -73,7 +73,8 @@ impl Control {
 			bits::bool.context(StrContext::Label("PRM")),
 			bits::bool.context(StrContext::Label("FCB/ACD")),
 			bits::bool.context(StrContext::Label("FCV/DFC")),
-			bits::take::<_, u8, _, MBusError>(4_usize).context(StrContext::Label("function")),
+			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize)
+				.context(StrContext::Label("function")),
 		))
 		.verify_map(|(_, prm, fcb_acd, fcv_dfc, function)| {
 			Some(if prm {
-- 
2.43.0


From 386ebe04e3d140cfde1676b6e63451dfaa36ffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:31 +0000
Subject: [PATCH 15/15] fix: decode six byte date and time records as Type I

EN 13757-3 pairs the date and time VIF (E110 1101) with a 48 bit integer for
Type I. There is no 40 bit data field, so it could never be selected.
---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 4abdf8e..a4361dc 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -136,7 +136,7 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::LVAR => ValueType::TypeMDatetime,
 			RawDataType::Binary(4) => ValueType::TypeFDateTime,
 			RawDataType::Binary(3) => ValueType::TypeJTime,
-			RawDataType::Binary(5) => ValueType::TypeIDateTime,
+			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
 		ValueType::DSTTypeK => match dib.raw_type {
-- 
2.43.0

