From 85a53bccd61b42b553739fd658924b0ca6c23098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 001/113] fix: Detect Lyrics3v2 tags

The trailer is a 6 digit size followed by the 9 byte identifier, but an 8 byte
slice was compared with it, so no tag was ever found and APE tags in front of one were lost.
---
 lofty/src/id3/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9bf003d..6953435 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -88,17 +88,19 @@ where
 	let mut lyrics3v2 = [0; 15];
 	data.read_exact(&mut lyrics3v2)?;
 
-	if &lyrics3v2[7..] == b"LYRICS200" {
+	// A 6 digit size, followed by the identifier
+	if &lyrics3v2[6..] == b"LYRICS200" {
 		log::warn!("Encountered a Lyrics3v2 tag. This is an outdated format, and will be skipped.");
 
 		header = Some(());
 
-		let lyrics_size = utf8_decode_str(&lyrics3v2[..7])?;
+		let lyrics_size = utf8_decode_str(&lyrics3v2[..6])?;
 		let lyrics_size = lyrics_size.parse::<u32>()?;
 
-		size += lyrics_size;
+		// The size field and the identifier aren't included in the size
+		size += lyrics_size + 15;
 
-		data.seek(SeekFrom::Current(i64::from(lyrics_size + 15).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg()))?;
 	}
 
 	Ok(ID3FindResults(header, size))
-- 
2.43.0


From 7b88b067ef3e4eee72aff9edb2805daf7a80631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 002/113] fix: Do not append an empty ID3v1 tag when removing
 an absent one

---
 lofty/src/id3/v1/write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 21bdd3c..66bd2ff 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -28,7 +28,12 @@ where
 		find_id3v1(&mut file, false, write_options.parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
 
-	if tag.is_empty() && header.is_some() {
+	if tag.is_empty() {
+		if header.is_none() {
+			// Nothing to remove
+			return Ok(());
+		}
+
 		// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
 		// shrink it down.
 		let new_length = file.len()?.saturating_sub(128);
-- 
2.43.0


From faf2e9e9205cc4d517800c79c560305588a53e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 003/113] fix: Skip the ID3v2 footer when guessing the file
 type

---
 lofty/src/file/file_type.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 029564d..8cdbfd2 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -292,9 +292,13 @@ impl FileType {
 				// This is infallible, but preferable to an unwrap
 				if let Ok(arr) = buf[6..10].try_into() {
 					// Set the ID3v2 size
-					ret = Some(FileTypeGuessResult::MaybePrecededById3(
-						u32::from_be_bytes(arr).unsynch(),
-					));
+					let mut size = u32::from_be_bytes(arr).unsynch();
+					if buf[3] >= 3 && buf[5] & 0x10 != 0 {
+						// The footer is not included in the size
+						size += 10;
+					}
+
+					ret = Some(FileTypeGuessResult::MaybePrecededById3(size));
 				}
 			},
 			None => ret = Some(FileTypeGuessResult::MaybePrecededByJunk),
-- 
2.43.0


From 719716008c51b43dfe0958c3b6c9d35b5923ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 004/113] fix: Respect header-less APE tags and APE tags at the
 start of the file

---
 lofty/src/ape/read.rs       |  6 ++++++
 lofty/src/ape/tag/header.rs | 14 +++++++-------
 lofty/src/ape/tag/write.rs  | 14 ++++++--------
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index dfb861e..efa9a91 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -77,6 +77,8 @@ where
 					"Encountered an APE tag at the beginning of the file, attempting to read"
 				);
 
+				let ape_tag_start = data.stream_position()? - 4;
+
 				// Get the remaining part of the ape tag
 				let mut remaining = [0; 4];
 				data.read_exact(&mut remaining)?;
@@ -97,6 +99,10 @@ where
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
 				}
+
+				// Continue past the tag
+				data.seek(SeekFrom::Start(ape_tag_start + u64::from(ape_header.size)))?;
+				data.read_exact(&mut header)?;
 			},
 			_ => {
 				return Err(ApeParseError::message(
diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 7ecd9cf..7662e23 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -29,18 +29,18 @@ where
 
 	let item_count = data.read_u32::<LittleEndian>()?;
 
+	let flags = data.read_u32::<LittleEndian>()?;
+
 	if footer {
 		// No point in reading the rest of the footer, just seek back to the end of the header
-		data.seek(SeekFrom::Current(i64::from(size - 12).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size - 8).neg()))?;
 	} else {
-		// There are 12 bytes remaining in the header
-		// Flags (4)
-		// Reserved (8)
-		data.seek(SeekFrom::Current(12))?;
+		// There are 8 reserved bytes remaining in the header
+		data.seek(SeekFrom::Current(8))?;
 	}
 
-	// Version 1 doesn't include a header
-	if version == 2000 {
+	// Version 1 doesn't include a header, and it's optional in version 2 (bit 31)
+	if version == 2000 && (!footer || flags & (1 << 31) != 0) {
 		size = size.saturating_add(32);
 	}
 
diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index dbbb317..4a78cad 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -67,8 +67,9 @@ where
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
 	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
 
-	let mut ape_preamble = [0; 8];
-	file.read_exact(&mut ape_preamble)?;
+	// The existing tags have to be found, regardless of whether the caller would read them
+	let mut parse_options = write_options.parse_options;
+	parse_options.read_tags = true;
 
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
@@ -78,9 +79,7 @@ where
 	let mut header_tag_location = None;
 
 	let start = file.stream_position()? as usize;
-	match read::read_ape_tag(file, false, write_options.parse_options)
-		.map_err(TagParseError::from)?
-	{
+	match read::read_ape_tag(file, false, parse_options).map_err(TagParseError::from)? {
 		(Some(mut existing_tag), Some(header)) => {
 			if write_options.respect_read_only {
 				// Only keep metadata around that's marked read only
@@ -99,8 +98,7 @@ where
 	}
 
 	// Skip over ID3v1 and Lyrics3v2 tags
-	find_id3v1(file, false, write_options.parse_options.parsing_mode)
-		.map_err(TagParseError::from)?;
+	find_id3v1(file, false, parse_options.parsing_mode).map_err(TagParseError::from)?;
 	find_lyrics3v2(file)?;
 
 	// In case there's no ape tag already, this is the spot it belongs
@@ -114,7 +112,7 @@ where
 	// Also check this tag for any read only items
 	let start = file.stream_position()? as usize + 32;
 	if let (Some(mut existing_tag), Some(header)) =
-		read::read_ape_tag(file, true, write_options.parse_options).map_err(TagParseError::from)?
+		read::read_ape_tag(file, true, parse_options).map_err(TagParseError::from)?
 	{
 		if write_options.respect_read_only {
 			existing_tag.items.retain(|i| i.read_only);
-- 
2.43.0


From b88a645e95604e6d1140c10e981f88f7ee67d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 005/113] fix: Skip the unread remainder of ID3v2 frames

---
 lofty/src/id3/v2/frame/read.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 2fcef85..1cede12 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -141,8 +141,29 @@ impl ParsedFrame<'static> {
 		}
 
 		// Restrict the reader to the frame content
-		let mut reader = reader.take(u64::from(size));
+		let mut content_reader = reader.take(u64::from(size));
+		let frame =
+			Self::read_content(&mut content_reader, size, id, flags, version, parse_options)?;
 
+		// The content isn't necessarily read in full, make sure we end up at the next frame
+		if let Err(e) = std::io::copy(&mut content_reader, &mut std::io::sink()) {
+			return Err(FrameParseError::io(None, e));
+		}
+
+		Ok(frame)
+	}
+
+	fn read_content<R>(
+		mut reader: R,
+		size: u32,
+		id: FrameId<'static>,
+		flags: FrameFlags,
+		version: Id3v2Version,
+		parse_options: ParseOptions,
+	) -> Result<Self, FrameParseError>
+	where
+		R: Read,
+	{
 		// It seems like the flags are applied in the order:
 		//
 		// unsynchronization -> compression -> encryption
-- 
2.43.0


From a908dcd06895d8d321119514eabf75e1fc1711bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 006/113] fix: Do not write ID3v2 frame flags for
 transformations that are not applied

---
 lofty/src/id3/v2/write/frame.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 84bc870..623e10e 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -277,6 +277,8 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
+		| ("OWNE", Frame::Ownership(_))
+		| ("ETCO", Frame::EventTimingCodes(_))
 		| ("PRIV", Frame::Private(_))
 		| ("CHAP", Frame::Chapter(_))
 		| ("CTOC", Frame::TableOfContents(_)) => Ok(()),
@@ -295,18 +297,25 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 fn write_frame<W>(
 	writer: &mut W,
 	name: &str,
-	flags: FrameFlags,
+	mut flags: FrameFlags,
 	value: &[u8],
 	write_options: WriteOptions,
 ) -> Result<(), FrameEncodingError>
 where
 	W: Write,
 {
+	// The content is always written as-is, without any of these transformations
+	flags.unsynchronisation = false;
+	flags.compression = false;
+
 	if flags.encryption.is_some() {
 		write_encrypted(writer, name, value, flags, write_options)?;
 		return Ok(());
 	}
 
+	// Only written for encrypted frames
+	flags.data_length_indicator = None;
+
 	let len = value.len() as u32;
 	let is_grouping_identity = flags.grouping_identity.is_some();
 
@@ -351,13 +360,23 @@ where
 	if let Some(mut len) = flags.data_length_indicator
 		&& len > 0
 	{
-		write_frame_header(writer, name, (value.len() + 1) as u32, flags, write_options)?;
+		// Encryption method symbol (1) + data length indicator (4)
+		let mut frame_len = value.len() as u32 + 5;
+		if flags.grouping_identity.is_some() {
+			frame_len += 1;
+		}
+
+		write_frame_header(writer, name, frame_len, flags, write_options)?;
 		if !write_options.use_id3v23 {
 			len = len.synch()?;
 		}
 
-		writer.write_u32::<BigEndian>(len)?;
 		writer.write_u8(method_symbol)?;
+		if let Some(grouping_identity) = flags.grouping_identity {
+			writer.write_u8(grouping_identity)?;
+		}
+
+		writer.write_u32::<BigEndian>(len)?;
 		writer.write_all(value)?;
 
 		return Ok(());
-- 
2.43.0


From 395c810a1f0f367a8cfb93d4ef0deef50310c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 007/113] fix: Read and write ID3v2 extended headers according
 to their version

---
 lofty/src/id3/mod.rs          |   7 +-
 lofty/src/id3/v2/header.rs    | 120 +++++++++++++++++++++-------------
 lofty/src/id3/v2/write/mod.rs |  16 ++++-
 3 files changed, 96 insertions(+), 47 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 6953435..075f1d4 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -207,13 +207,16 @@ where
 	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
 		log::debug!("Found an ID3v2 tag, parsing");
 
+		// The extended header has already been read
+		let content_size = id3v2_header.size - id3v2_header.extended_size;
+
 		if config.read {
-			let mut tag = try_vec![0; id3v2_header.size as usize]?;
+			let mut tag = try_vec![0; content_size as usize]?;
 			reader.read_exact(&mut tag)?;
 
 			id3v2 = Some(tag)
 		} else {
-			reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+			reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 		}
 
 		if id3v2_header.flags.footer {
diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 5412c5f..9402f4e 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -1,7 +1,7 @@
 use crate::error::FakeTagError;
 use crate::id3::v2::error::{Id3v2HeaderError, Id3v2ParseError};
 use crate::id3::v2::restrictions::TagRestrictions;
-use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
+use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 
 use std::fmt::Display;
 use std::io::Read;
@@ -80,7 +80,7 @@ impl Id3v2TagFlags {
 		let mut byte = 0;
 
 		if self.experimental {
-			byte |= 0x40;
+			byte |= 0x20;
 		}
 
 		if self.footer {
@@ -97,6 +97,7 @@ pub(crate) struct Id3v2Header {
 	pub flags: Id3v2TagFlags,
 	/// The size of the tag contents (**DOES NOT INCLUDE THE HEADER/FOOTER**)
 	pub size: u32,
+	/// The number of bytes in the tag contents that belong to the extended header
 	pub extended_size: u32,
 }
 
@@ -150,30 +151,7 @@ impl Id3v2Header {
 			(version == Id3v2Version::V4 || version == Id3v2Version::V3) && flags & 0x40 == 0x40;
 
 		if extended_header {
-			match version {
-				// In ID3v2.3, the extended header is considered separate from the frame header, and
-				// thus subject to unsynchronization
-				Id3v2Version::V3 => {
-					if flags_parsed.unsynchronisation {
-						let mut reader = UnsynchronizedStream::new(bytes);
-						extended_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, extended_size)?;
-					} else {
-						extended_size = bytes.read_u32::<BigEndian>()?;
-						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-					}
-				},
-				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
-				Id3v2Version::V4 => {
-					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-				},
-				_ => unreachable!(),
-			}
-		}
-
-		if extended_size > 0 && extended_size >= size {
-			return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+			extended_size = read_extended_header(bytes, version, &mut flags_parsed, size)?;
 		}
 
 		Ok(Id3v2Header {
@@ -186,40 +164,94 @@ impl Id3v2Header {
 
 	/// The total size of the tag, including the header, footer, and extended header
 	pub(crate) fn full_tag_size(&self) -> u32 {
-		self.size + 10 + self.extended_size + if self.flags.footer { 10 } else { 0 }
+		self.size + 10 + if self.flags.footer { 10 } else { 0 }
 	}
 }
 
+/// Reads the extended header, returning the number of bytes it occupies in the tag
 fn read_extended_header<R: Read>(
 	reader: &mut R,
+	version: Id3v2Version,
 	flags: &mut Id3v2TagFlags,
-	header_size: u32,
-) -> Result<(), Id3v2ParseError> {
-	if header_size < 6 {
+	tag_size: u32,
+) -> Result<u32, Id3v2ParseError> {
+	// In ID3v2.3, the extended header is considered separate from the frame header, and
+	// thus subject to unsynchronization. In ID3v2.4, no flags apply to it.
+	let unsynchronised = version == Id3v2Version::V3 && flags.unsynchronisation;
+
+	let mut bytes_read = 0;
+	let mut last_byte = 0;
+	let mut next_byte = || -> Result<u8, Id3v2ParseError> {
+		loop {
+			let byte = reader.read_u8()?;
+			bytes_read += 1;
+
+			let skip = unsynchronised && last_byte == 0xFF && byte == 0;
+			last_byte = byte;
+			if !skip {
+				return Ok(byte);
+			}
+		}
+	};
+
+	let size = u32::from_be_bytes([next_byte()?, next_byte()?, next_byte()?, next_byte()?]);
+
+	// The size doesn't include itself in ID3v2.3, but does in ID3v2.4
+	let content_size = match version {
+		Id3v2Version::V4 => size.unsynch().checked_sub(4),
+		_ => Some(size),
+	};
+	let Some(content_size) = content_size.filter(|size| *size >= 2) else {
 		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
-	}
+	};
 
-	// Useless byte since there's only 1 byte for flags
-	let _num_flag_bytes = reader.read_u8()?;
+	if content_size >= tag_size.saturating_sub(4) {
+		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+	}
 
-	let extended_flags = reader.read_u8()?;
+	let mut content = Vec::new();
+	for _ in 0..content_size {
+		content.push(next_byte()?);
+	}
 
 	// The only flags we care about here are the CRC and restrictions
 
-	if extended_flags & 0x20 == 0x20 {
-		flags.crc = true;
+	if bytes_read > tag_size {
+		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+	}
 
-		// We don't care about the existing CRC (5) or its length byte (1)
-		let mut crc = [0; 6];
-		reader.read_exact(&mut crc)?;
+	if version == Id3v2Version::V3 {
+		flags.crc = content[0] & 0x80 == 0x80;
+		return Ok(bytes_read);
 	}
 
-	if extended_flags & 0x10 == 0x10 {
-		// We don't care about the length byte, it is always 1
-		let _data_length = reader.read_u8()?;
+	// The first byte is useless, since there's only 1 byte for flags
+	let extended_flags = content[1];
+
+	// Each flag is followed by the length of its data (1)
+	let mut data = &content[2..];
+	for flag in [0x40, 0x20, 0x10] {
+		if extended_flags & flag == 0 {
+			continue;
+		}
 
-		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_u8()?));
+		let Some((flag_data, remaining)) = data
+			.split_first()
+			.and_then(|(len, data)| data.split_at_checked(usize::from(*len)))
+		else {
+			return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+		};
+		data = remaining;
+
+		match (flag, flag_data) {
+			// We don't care about the existing CRC
+			(0x20, _) => flags.crc = true,
+			(0x10, [restrictions, ..]) => {
+				flags.restrictions = Some(TagRestrictions::from_byte(*restrictions));
+			},
+			_ => {},
+		}
 	}
 
-	Ok(())
+	Ok(bytes_read)
 }
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index ceaa876..c07a702 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -109,6 +109,16 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		log::debug!("Using ID3v2.3");
 	}
 
+	// Extended headers have a different structure in ID3v2.3, and there are no footers
+	if is_id3v23 {
+		tag.flags.footer = false;
+		tag.flags.crc = false;
+		tag.flags.restrictions = None;
+	}
+
+	// The frames are never written with unsynchronisation applied
+	tag.flags.unsynchronisation = false;
+
 	let has_footer = tag.flags.footer;
 	let needs_crc = tag.flags.crc;
 	let has_restrictions = tag.flags.restrictions.is_some();
@@ -209,12 +219,16 @@ fn create_tag_header(
 
 	let extended_header = flags.crc || flags.restrictions.is_some();
 
-	let tag_flags = if is_id3v23 {
+	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
 		flags.as_id3v24_byte()
 	};
 
+	if extended_header {
+		tag_flags |= 0x40;
+	}
+
 	header.write_u8(tag_flags)?;
 	header.write_u32::<BigEndian>(0)?;
 
-- 
2.43.0


From cc90314a3179374755c236c4f9361f7d8092b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 008/113] fix: Read audio properties consistently, regardless
 of the tags being read

---
 lofty/src/aac/read.rs      |  7 +++++--
 lofty/src/ape/read.rs      |  3 +--
 lofty/src/mpeg/read.rs     | 14 ++++++++------
 lofty/src/musepack/read.rs | 22 +++++++---------------
 4 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index cc79ee7..9e2a5f4 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -48,6 +48,7 @@ where
 
 				let header = Id3v2Header::parse(reader).map_err(TagParseError::from)?;
 				let skip_footer = header.flags.footer;
+				let content_size = header.size - header.extended_size;
 
 				let Some(new_stream_len) = stream_len.checked_sub(u64::from(header.size)) else {
 					return Err(SizeMismatchError.into());
@@ -66,9 +67,11 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
+				} else {
+					reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 				}
 
 				// Skip over the footer
diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index efa9a91..1397f2b 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -144,6 +144,7 @@ where
 	// Starts with ['A', 'P', 'E', 'T', 'A', 'G', 'E', 'X']
 	// Exactly 32 bytes long
 	// Strongly recommended to be at the end of the file
+	let file_length = data.stream_position()?;
 	data.seek(SeekFrom::Current(-32))?;
 
 	if let (tag, Some(header)) =
@@ -153,8 +154,6 @@ where
 		ape_tag = tag;
 	}
 
-	let file_length = data.stream_position()?;
-
 	// Go back to the MAC header to read properties
 	data.seek(SeekFrom::Start(mac_start))?;
 
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index db5bf1c..467f0ac 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -55,11 +55,12 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
 				} else {
-					reader.seek(SeekFrom::Current(i64::from(header.size)))?;
+					let content_size = header.size - header.extended_size;
+					reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 				}
 
 				// Skip over the footer
@@ -90,7 +91,8 @@ where
 							.map_err(TagParseError::from)?,
 						);
 					} else {
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+						// The size includes the header, which was already read
+						reader.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 					}
 
 					continue;
@@ -163,6 +165,7 @@ where
 
 	let _ = find_lyrics3v2(reader)?;
 
+	let ape_tag_end = reader.stream_position()?;
 	reader.seek(SeekFrom::Current(-32))?;
 
 	match crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
@@ -172,8 +175,7 @@ where
 			file.ape_tag = tag;
 
 			// Seek back to the start of the tag
-			let pos = reader.stream_position()?;
-			let Some(start_of_tag) = pos.checked_sub(u64::from(header.size)) else {
+			let Some(start_of_tag) = ape_tag_end.checked_sub(u64::from(header.size)) else {
 				return Err(SizeMismatchError.into());
 			};
 
diff --git a/lofty/src/musepack/read.rs b/lofty/src/musepack/read.rs
index 2faac94..9a8e156 100644
--- a/lofty/src/musepack/read.rs
+++ b/lofty/src/musepack/read.rs
@@ -34,7 +34,7 @@ where
 
 	// ID3v2 tags are unsupported in MPC files, but still possible
 	#[allow(unused_variables)]
-	if let ID3FindResults(Some(header), Some(content)) =
+	if let ID3FindResults(Some(header), content) =
 		find_id3v2(reader, find_id3v2_config).map_err(TagParseError::from)?
 	{
 		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.full_tag_size()))
@@ -44,10 +44,12 @@ where
 
 		stream_length = new_stream_length;
 
-		let reader = &mut &*content;
+		if let Some(content) = content {
+			let reader = &mut &*content;
 
-		let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-		file.id3v2_tag = Some(id3v2);
+			let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
+			file.id3v2_tag = Some(id3v2);
+		}
 	}
 
 	// Save the current position, so we can go back and read the properties after the tags
@@ -81,17 +83,7 @@ where
 	{
 		file.ape_tag = tag;
 
-		// Seek back to the start of the tag
-		let pos = reader.stream_position()?;
-
-		let tag_size = u64::from(header.size);
-		let Some(tag_start) = pos.checked_sub(tag_size) else {
-			return Err(SizeMismatchError.into());
-		};
-
-		reader.seek(SeekFrom::Start(tag_start))?;
-
-		let Some(new_stream_length) = stream_length.checked_sub(tag_size) else {
+		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.size)) else {
 			return Err(SizeMismatchError.into());
 		};
 		stream_length = new_stream_length;
-- 
2.43.0


From e9a007dd2da80a6de3b599873661c1f5ca0ab350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 009/113] fix: Keep FLAC padding blocks behind newly written
 metadata

---
 lofty/src/flac/write.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 92af60f..100bf24 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -140,7 +140,12 @@ where
 
 	let metadata_blocks = encode_tag(&tag.vendor, comments_peek, pictures_peek)?;
 
-	blocks.extend(metadata_blocks);
+	// `PADDING` always goes last
+	let metadata_position = blocks
+		.iter()
+		.rposition(|block| block.ty != BLOCK_ID_PADDING)
+		.map_or(0, |position| position + 1);
+	blocks.splice(metadata_position..metadata_position, metadata_blocks);
 
 	if will_write_padding && let Some(preferred_padding) = write_options.preferred_padding {
 		log::warn!("File is missing a PADDING block. Adding one");
@@ -158,7 +163,6 @@ where
 			.min(u64::from(Block::MAX_CONTENT_SIZE));
 		let padding_len = usize::try_from(padding_len).map_err(|_| SizeMismatchError)?;
 
-		// `PADDING` always goes last
 		blocks.push(Block::new_padding(padding_len)?);
 	}
 
-- 
2.43.0


From f96b952a7a222d5677a298b53de071831daf1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 010/113] fix: Keep chunk sizes correct when replacing ID3v2
 chunks in RIFF/AIFF files

---
 lofty/src/id3/v2/write/chunk_file.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 3a813d5..85dae26 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -102,7 +102,7 @@ where
 					updated_stream_len -= remainder;
 					file.truncate(existing_id3_tag.end - remainder)?;
 				} else {
-					updated_stream_len -= tag_chunk_size - existing_tag_len;
+					updated_stream_len += tag_chunk_size - existing_tag_len;
 				}
 			}
 
@@ -130,17 +130,22 @@ where
 				return Ok(());
 			}
 
-			// - `IFF_CHUNK_HEADER_SIZE`, since we need at least `IFF_CHUNK_HEADER_SIZE` bytes to
+			// Unless the new tag is an exact fit, we need at least `IFF_CHUNK_HEADER_SIZE` bytes to
 			// write a `JUNK` chunk
-			if (existing_tag_len - u64::from(IFF_CHUNK_HEADER_SIZE)) >= tag_chunk_size {
+			if existing_tag_len == tag_chunk_size
+				|| (existing_tag_len - u64::from(IFF_CHUNK_HEADER_SIZE)) >= tag_chunk_size
+			{
 				let remainder = existing_tag_len - tag_chunk_size;
 				log::trace!("Existing tag large enough to overwrite (padding size: {remainder})");
 
 				file.seek(SeekFrom::Start(existing_id3_tag.start))?;
 				write_id3v2_chunk::<_, B>(tag, write_options, &mut file)?;
 
-				file.write_all(&JUNK_CHUNK_NAME)?;
-				file.write_u32::<B>(remainder as u32)?;
+				if remainder > 0 {
+					file.write_all(&JUNK_CHUNK_NAME)?;
+					file.write_u32::<B>(remainder as u32 - IFF_CHUNK_HEADER_SIZE)?;
+				}
+
 				return Ok(());
 			}
 		}
@@ -232,10 +237,8 @@ where
 	let file = chunks.into_inner();
 	file.seek(SeekFrom::Start(FIRST_CHUNK_LEN))?;
 
-	let mut chunks = Chunks::<_, B>::new(
-		file,
-		context.stream_length - u64::from(IFF_CHUNK_HEADER_SIZE),
-	);
+	let mut chunks =
+		Chunks::<_, B>::new(file, context.stream_length.saturating_sub(FIRST_CHUNK_LEN));
 	while let Some(chunk) = chunks
 		.next(parse_options.parsing_mode)
 		.map_err(|e| handle_chunk_error(format, e))?
-- 
2.43.0


From 80aa63ba7980498ec2def2c8d309ae28eaa65e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 011/113] fix: Handle extended MP4 atoms and update all offsets
 when writing ilst

---
 lofty/src/mp4/atom_info.rs        |  22 +-
 lofty/src/mp4/ilst/write.rs       | 591 ++++++++++++------------------
 lofty/src/mp4/moov.rs             |  31 +-
 lofty/src/mp4/properties.rs       |  35 +-
 lofty/src/mp4/read/atom_reader.rs |  33 +-
 lofty/src/mp4/read/mod.rs         |  33 +-
 lofty/src/mp4/write.rs            |  12 +-
 7 files changed, 350 insertions(+), 407 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 31099a6..7d1b1cd 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -190,18 +190,24 @@ impl AtomInfo {
 
 				reader.seek(SeekFrom::Start(pos))?;
 
-				(end - pos, false)
+				(end - start, false)
 			},
 			// There's an extended length
 			1 => (reader.read_u64::<BigEndian>()?, true),
 			_ => (len_raw, false),
 		};
 
-		if len < ATOM_HEADER_LEN {
+		let header_len = if extended {
+			ATOM_HEADER_LEN + 8
+		} else {
+			ATOM_HEADER_LEN
+		};
+
+		if len < header_len {
 			// Seek to the end, since we can't recover from this
 			reader.seek(SeekFrom::End(0))?;
 
-			return Err(NotEnoughDataError::new(Some(8)).into());
+			return Err(NotEnoughDataError::new(Some(header_len as usize)).into());
 		}
 
 		// `len` includes itself and the identifier
@@ -246,6 +252,16 @@ impl AtomInfo {
 		}))
 	}
 
+	/// The length of the atom, excluding its header
+	pub(crate) fn content_len(&self) -> u64 {
+		self.len.saturating_sub(self.header_size())
+	}
+
+	/// The position directly after the atom
+	pub(crate) fn end(&self) -> u64 {
+		self.start.saturating_add(self.len)
+	}
+
 	pub(crate) fn header_size(&self) -> u64 {
 		if !self.extended {
 			return ATOM_HEADER_LEN;
diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1be152b..267755a 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -11,12 +11,13 @@ use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::mp4::ilst::error::IlstEncodingError;
 use crate::mp4::ilst::r#ref::AtomRef;
 use crate::mp4::read::{AtomReader, atom_tree, find_child_atom, meta_is_full, verify_mp4};
-use crate::mp4::write::{AtomWriter, AtomWriterCompanion, ContextualAtom};
+use crate::mp4::write::{AtomWriter, AtomWriterCompanion};
 use crate::picture::{MimeType, Picture};
 use crate::util::alloc::VecFallibleCapacity;
 use crate::util::io::FileLike;
 
-use std::io::{Cursor, Seek, SeekFrom, Write};
+use std::io::{Seek, SeekFrom, Write};
+use std::ops::Range;
 
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 
@@ -56,371 +57,281 @@ where
 		return Err(FileParseError::from(Mp4ParseError::missing_moov()).into());
 	};
 
-	let moov_start = moov.info.start;
-	let moov_len = moov.info.len;
-	let moov_extended = moov.info.extended;
-
 	log::trace!(
 		"Found `moov` atom, offset: {}, size: {}",
-		moov_start,
-		moov_len
+		moov.info.start,
+		moov.info.len
 	);
 
-	let mut moov_data_start = moov_start + ATOM_HEADER_LEN;
-	if moov_extended {
-		moov_data_start += 8;
-	}
-
 	let mut write_handle = atom_writer.start_write();
-	write_handle.seek(SeekFrom::Start(moov_data_start))?;
+	write_handle.seek(SeekFrom::Start(content_start(&moov.info)))?;
 
 	let ilst = build_ilst(&mut tag.atoms, write_options).map_err(TagEncodingError::from)?;
 	let remove_tag = ilst.is_empty();
 
 	let udta = find_child_atom(
 		&mut write_handle,
-		moov_len,
+		moov.info.content_len(),
 		*b"udta",
 		write_options.parse_options.parsing_mode,
 	)
 	.map_err(handle_atom_parse_error)?;
 
-	// Nothing to do
-	if remove_tag && udta.is_none() {
-		return Ok(());
-	}
-
-	// Total size of new atoms
-	let mut new_udta_size;
-	// Size of the existing udta atom
-	let mut existing_udta_size = 0;
-
 	// ilst is nested in udta.meta, so we need to check what atoms actually exist
-	if let Some(udta) = udta {
-		log::trace!(
-			"Found `udta` atom, offset: {}, size: {}",
-			udta.start,
-			udta.len
-		);
-
-		existing_udta_size = udta.len;
-		new_udta_size = existing_udta_size;
-
-		let meta = find_child_atom(
-			&mut write_handle,
-			udta.len,
-			*b"meta",
-			write_options.parse_options.parsing_mode,
-		)
-		.map_err(handle_atom_parse_error)?;
-
+	let Some(udta) = udta else {
 		// Nothing to do
-		if remove_tag && meta.is_none() {
+		if remove_tag {
 			return Ok(());
 		}
 
-		match meta {
-			Some(meta) => {
-				log::trace!(
-					"Found `meta` atom, offset: {}, size: {}",
-					meta.start,
-					meta.len
-				);
-
-				// We may encounter a non-full `meta` atom
-				meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)?;
-				drop(write_handle);
-
-				// We can use the existing `udta` and `meta` atoms
-				save_to_existing(
-					&atom_writer,
-					moov,
-					(meta, udta),
-					&mut new_udta_size,
-					ilst,
-					remove_tag,
-					write_options,
-				)?
-			},
-			// We have to create the `meta` atom
-			None => {
-				log::trace!("No `meta` atom found, creating one");
-
-				drop(write_handle);
-
-				existing_udta_size = udta.len;
-
-				// `meta` + `ilst`
-				let capacity = FULL_ATOM_SIZE as usize + ilst.len();
-				let buf = Vec::with_capacity(capacity);
-
-				let bytes;
-				{
-					let meta_writer =
-						AtomWriter::new(buf, write_options.parse_options.parsing_mode);
-					create_meta(&meta_writer, &ilst)?;
-
-					bytes = meta_writer.into_contents();
-				}
+		log::trace!("No `udta` atom found, creating one");
+		drop(write_handle);
 
-				write_handle = atom_writer.start_write();
+		// We have to create the `udta` atom, and we'll put it right at the start of `moov`
+		let bytes = create_udta(&ilst, write_options)?;
+		let udta_pos = content_start(&moov.info);
+		replace_content(&atom_writer, &[&moov.info], udta_pos..udta_pos, bytes)?;
 
-				new_udta_size = udta.len + bytes.len() as u64;
+		atom_writer.save_to(&mut file)?;
+		return Ok(());
+	};
 
-				write_handle.seek(SeekFrom::Start(udta.start))?;
-				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
+	log::trace!(
+		"Found `udta` atom, offset: {}, size: {}",
+		udta.start,
+		udta.len
+	);
 
-				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + ATOM_HEADER_LEN) as usize;
-				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
+	let meta = find_child_atom(
+		&mut write_handle,
+		udta.content_len(),
+		*b"meta",
+		write_options.parse_options.parsing_mode,
+	)
+	.map_err(handle_atom_parse_error)?;
 
-				// TODO: We need to drop the handle at the end of each branch, which is annoying
-				//       This whole function needs to be refactored eventually.
-				drop(write_handle);
-			},
+	let Some(meta) = meta else {
+		// Nothing to do
+		if remove_tag {
+			return Ok(());
 		}
-	} else {
-		log::trace!("No `udta` atom found, creating one");
-
-		// We have to create the `udta` atom
-		let bytes = create_udta(&ilst, write_options)?;
-		new_udta_size = bytes.len() as u64;
-
-		// We'll put the new `udta` atom right at the start of `moov`
-		let udta_pos = (moov_start + ATOM_HEADER_LEN) as usize;
-		write_handle.splice(udta_pos..udta_pos, bytes);
 
+		log::trace!("No `meta` atom found, creating one");
 		drop(write_handle);
-	}
 
-	let mut write_handle = atom_writer.start_write();
+		// `meta` + `ilst`
+		let capacity = FULL_ATOM_SIZE as usize + ilst.len();
+		let buf = Vec::with_capacity(capacity);
+
+		let meta_writer = AtomWriter::new(buf, write_options.parse_options.parsing_mode);
+		create_meta(&meta_writer, &ilst)?;
+		let bytes = meta_writer.into_contents();
 
-	write_handle.seek(SeekFrom::Start(moov_start))?;
+		// We'll put the new `meta` atom right at the start of `udta`
+		let meta_pos = content_start(&udta);
+		replace_content(
+			&atom_writer,
+			&[&moov.info, &udta],
+			meta_pos..meta_pos,
+			bytes,
+		)?;
 
-	// Change the size of the moov atom
-	let new_moov_length = (moov_len - existing_udta_size) + new_udta_size;
+		atom_writer.save_to(&mut file)?;
+		return Ok(());
+	};
 
 	log::trace!(
-		"Updating `moov` atom size, old size: {}, new size: {}",
-		moov_len,
-		new_moov_length
+		"Found `meta` atom, offset: {}, size: {}",
+		meta.start,
+		meta.len
 	);
-	write_handle.write_atom_size(moov_start, new_moov_length, moov_extended)?;
+
+	// We may encounter a non-full `meta` atom
+	let mut meta_content_len = meta.content_len();
+	if meta_is_full(&mut write_handle).map_err(handle_atom_parse_error)? {
+		meta_content_len = meta_content_len.saturating_sub(4);
+	}
 
 	drop(write_handle);
 
+	// We can use the existing `udta` and `meta` atoms
+	save_to_existing(
+		&atom_writer,
+		&[&moov.info, &udta, &meta],
+		meta_content_len,
+		ilst,
+		remove_tag,
+		write_options,
+	)?;
+
 	atom_writer.save_to(&mut file)?;
 
 	Ok(())
 }
 
+// The position of the first byte following the atom header
+fn content_start(atom: &AtomInfo) -> u64 {
+	atom.start + atom.header_size()
+}
+
 fn save_to_existing(
 	writer: &AtomWriter,
-	moov: &ContextualAtom,
-	(meta, udta): (AtomInfo, AtomInfo),
-	new_udta_size: &mut u64,
+	parents: &[&AtomInfo; 3],
+	meta_content_len: u64,
 	ilst: Vec<u8>,
 	remove_tag: bool,
 	write_options: WriteOptions,
 ) -> Result<(), FileEncodingError> {
-	let mut replacement;
-	let range;
+	let meta = parents[2];
 
 	let mut write_handle = writer.start_write();
+	write_handle.seek(SeekFrom::Start(meta.end() - meta_content_len))?;
 
 	let (ilst_idx, tree) = atom_tree(
 		&mut write_handle,
-		meta.len - ATOM_HEADER_LEN,
+		meta_content_len,
 		b"ilst",
 		write_options.parse_options.parsing_mode,
 	)
 	.map_err(Into::<FileParseError>::into)?;
 
-	if tree.is_empty() {
+	let has_ilst = tree
+		.get(ilst_idx)
+		.is_some_and(|atom| atom.ident == AtomIdent::Fourcc(*b"ilst"));
+
+	if remove_tag {
+		drop(write_handle);
+
 		// Nothing to do
-		if remove_tag {
+		if !has_ilst {
 			return Ok(());
 		}
 
-		let meta_end = (meta.start + meta.len) as usize;
-
-		replacement = ilst;
-		range = meta_end..meta_end;
-	} else {
+		// We just need to strip out the `ilst` atom
 		let existing_ilst = &tree[ilst_idx];
-		let existing_ilst_size = existing_ilst.len;
-
-		let mut range_start = existing_ilst.start;
-		let range_end = existing_ilst.start + existing_ilst_size;
-
-		if remove_tag {
-			// We just need to strip out the `ilst` atom
-
-			replacement = Vec::new();
-			range = range_start as usize..range_end as usize;
-		} else {
-			// Check for some padding atoms we can utilize
-			let mut available_space = existing_ilst_size;
-
-			// Check for one directly before the `ilst` atom
-			if ilst_idx > 0 {
-				let mut i = ilst_idx;
-				while i != 0 {
-					let atom = &tree[i - 1];
-					if atom.ident != AtomIdent::Fourcc(*b"free") {
-						break;
-					}
-
-					available_space += atom.len;
-					range_start = atom.start;
-					i -= 1;
-				}
+		return replace_content(
+			writer,
+			parents,
+			existing_ilst.start..existing_ilst.end(),
+			Vec::new(),
+		);
+	}
 
-				log::trace!("Found {} preceding `free` atoms", ilst_idx - i)
-			}
+	// If there's no `ilst` atom, it'll be placed at the end of `meta`
+	let (before_ilst, ilst_range, after_ilst) = if has_ilst {
+		let existing_ilst = &tree[ilst_idx];
+		(
+			&tree[..ilst_idx],
+			existing_ilst.start..existing_ilst.end(),
+			&tree[ilst_idx + 1..],
+		)
+	} else {
+		(&tree[..], meta.end()..meta.end(), &tree[tree.len()..])
+	};
 
-			// And after
-			if ilst_idx != tree.len() - 1 {
-				let mut i = ilst_idx;
-				while i < tree.len() - 1 {
-					let atom = &tree[i + 1];
-					if atom.ident != AtomIdent::Fourcc(*b"free") {
-						break;
-					}
-
-					available_space += atom.len;
-					i += 1;
-				}
+	// Check for some padding atoms we can utilize
+	let is_free = |atom: &&AtomInfo| atom.ident == AtomIdent::Fourcc(*b"free");
 
-				log::trace!("Found {} succeeding `free` atoms", i - ilst_idx)
-			}
+	// Check for some directly before the `ilst` atom
+	let preceding = before_ilst.iter().rev().take_while(is_free);
+	let range_start = preceding.last().map_or(ilst_range.start, |atom| atom.start);
 
-			let ilst_len = ilst.len() as u64;
+	// And after
+	let succeeding = after_ilst.iter().take_while(is_free);
+	let range_end = succeeding.last().map_or(ilst_range.end, AtomInfo::end);
 
-			// Check if we have enough padding to fit the `ilst` atom and a new `free` atom
-			if available_space > ilst_len && (available_space - ilst_len) > 8 {
-				// We have enough space to make use of the padding
-				log::trace!("Found enough padding to fit the tag, file size will not change");
+	let available_space = range_end - range_start;
+	let ilst_len = ilst.len() as u64;
 
-				let remaining_space = available_space - ilst_len;
-				if remaining_space > u64::from(u32::MAX) {
-					return Err(TooMuchDataError.into());
-				}
-
-				let remaining_space = remaining_space as u32;
+	// Check if we have enough padding to fit the `ilst` atom and a new `free` atom
+	if available_space == ilst_len
+		|| (available_space > ilst_len && available_space - ilst_len >= ATOM_HEADER_LEN)
+	{
+		// We have enough space to make use of the padding
+		log::trace!("Found enough padding to fit the tag, file size will not change");
 
-				write_handle.seek(SeekFrom::Start(range_start))?;
-				write_handle.write_all(&ilst)?;
+		let remaining_space = available_space - ilst_len;
+		let Ok(remaining_space) = u32::try_from(remaining_space) else {
+			return Err(TooMuchDataError.into());
+		};
 
-				// Write the remaining padding
-				write_free_atom(&mut write_handle, remaining_space)?;
+		write_handle.seek(SeekFrom::Start(range_start))?;
+		write_handle.write_all(&ilst)?;
 
-				return Ok(());
-			}
-
-			replacement = ilst;
-			range = range_start as usize..range_end as usize;
+		// Write the remaining padding
+		if remaining_space > 0 {
+			write_free_atom(&mut write_handle, remaining_space)?;
 		}
+
+		return Ok(());
 	}
 
 	drop(write_handle);
 
-	let mut new_meta_size = (meta.len - range.len() as u64) + replacement.len() as u64;
-
 	// Pad the `ilst` in the event of a shrink
-	let mut difference = (new_meta_size as i64) - (meta.len as i64);
-	if !replacement.is_empty() && difference != 0 {
-		log::trace!("Tag size changed, attempting to avoid offset update");
-
-		let mut ilst_writer = Cursor::new(replacement);
-		let (atom_size_difference, padding_size) =
-			pad_atom(&mut ilst_writer, difference, write_options)?;
-
-		replacement = ilst_writer.into_inner();
-		new_meta_size += padding_size;
-		difference = atom_size_difference;
+	let mut replacement = ilst;
+	if ilst_len < available_space {
+		pad_atom(&mut replacement, write_options)?;
 	}
 
-	// Update the parent atom sizes
-	if new_meta_size != meta.len {
-		// We need to change the `meta` and `udta` atom sizes
-		let mut write_handle = writer.start_write();
-
-		*new_udta_size = (udta.len - meta.len) + new_meta_size;
-
-		write_handle.seek(SeekFrom::Start(meta.start))?;
-		write_handle.write_atom_size(meta.start, new_meta_size, meta.extended)?;
+	replace_content(writer, parents, range_start..range_end, replacement)
+}
 
-		write_handle.seek(SeekFrom::Start(udta.start))?;
-		write_handle.write_atom_size(udta.start, *new_udta_size, udta.extended)?;
-		drop(write_handle);
-	}
+/// Replace a range of bytes within `moov`
+///
+/// This will update the sizes of all `parents` and any absolute offset found in the file.
+fn replace_content(
+	writer: &AtomWriter,
+	parents: &[&AtomInfo],
+	range: Range<u64>,
+	replacement: Vec<u8>,
+) -> Result<(), FileEncodingError> {
+	let difference = replacement.len() as i64 - (range.end - range.start) as i64;
 
-	// Update offset atoms
 	if difference != 0 {
-		let offset = range.start as u64;
-		update_offsets(writer, moov, difference, offset)?;
+		log::trace!("Tag size changed by {difference} bytes");
+		update_offsets(writer, difference, range.end)?;
 	}
 
-	// Replace the `ilst` atom
 	let mut write_handle = writer.start_write();
-	write_handle.splice(range, replacement);
-	drop(write_handle);
-
-	Ok(())
-}
+	if difference != 0 {
+		for parent in parents {
+			let Some(new_size) = parent.len.checked_add_signed(difference) else {
+				return Err(TooMuchDataError.into());
+			};
 
-fn pad_atom<W>(
-	writer: &mut W,
-	mut atom_size_difference: i64,
-	write_options: WriteOptions,
-) -> Result<(i64, u64), FileEncodingError>
-where
-	W: Write + Seek,
-{
-	if atom_size_difference.is_positive() {
-		log::trace!("Atom has grown, cannot avoid offset update");
-		return Ok((atom_size_difference, 0));
-	}
+			if !parent.extended && u32::try_from(new_size).is_err() {
+				return Err(TooMuchDataError.into());
+			}
 
-	// When the tag shrinks, we need to try and pad it out to avoid updating
-	// the offsets.
-	writer.seek(SeekFrom::End(0))?;
+			log::trace!(
+				"Updating `{}` atom size, old size: {}, new size: {new_size}",
+				parent.ident,
+				parent.len,
+			);
 
-	let padding_size: u64;
-	let diff_abs = atom_size_difference.abs();
-	if diff_abs >= ATOM_HEADER_LEN as i64 {
-		log::trace!(
-			"Avoiding offset update, padding atom with {} bytes",
-			diff_abs
-		);
+			write_handle.seek(SeekFrom::Start(parent.start))?;
+			write_handle.write_atom_size(parent.start, new_size, parent.extended)?;
+		}
+	}
 
-		// If our difference is >= 8, we can make up the difference with
-		// a `free` atom and skip updating the offsets.
-		write_free_atom(writer, diff_abs as u32)?;
-		atom_size_difference = 0;
-		padding_size = diff_abs as u64;
+	write_handle.splice(range.start as usize..range.end as usize, replacement);
 
-		return Ok((atom_size_difference, padding_size));
-	}
+	Ok(())
+}
 
+fn pad_atom(ilst: &mut Vec<u8>, write_options: WriteOptions) -> Result<(), FileEncodingError> {
+	// There was too little space remaining for a `free` atom, so the offsets need
+	// to be updated either way.
 	let Some(preferred_padding) = write_options.preferred_padding else {
 		log::trace!("Cannot avoid offset update, not padding atom");
-		return Ok((atom_size_difference, 0));
+		return Ok(());
 	};
 
-	log::trace!(
-		"Cannot avoid offset update, padding atom with {} bytes",
-		preferred_padding
-	);
-
-	// Otherwise, we'll have to just pad the default amount,
-	// and update the offsets.
-	write_free_atom(writer, preferred_padding.get())?;
-	atom_size_difference += i64::from(preferred_padding.get());
-	padding_size = u64::from(preferred_padding.get());
+	let padding_size = preferred_padding.get().max(ATOM_HEADER_LEN as u32);
+	log::trace!("Cannot avoid offset update, padding atom with {padding_size} bytes");
 
-	Ok((atom_size_difference, padding_size))
+	write_free_atom(ilst, padding_size)
 }
 
 fn write_free_atom<W>(writer: &mut W, size: u32) -> Result<(), FileEncodingError>
@@ -435,106 +346,71 @@ where
 
 fn update_offsets(
 	writer: &AtomWriter,
-	moov: &ContextualAtom,
 	difference: i64,
-	ilst_offset: u64,
+	edit_offset: u64,
 ) -> Result<(), FileEncodingError> {
 	log::debug!("Checking for offset atoms to update");
 
 	let mut write_handle = writer.start_write();
 
-	// 32-bit offsets
-	for stco in moov.find_all_children(*b"stco", true) {
-		log::trace!("Found `stco` atom");
-
-		let stco_start = stco.start;
-		if stco.extended {
-			return Err(FileParseError::from(AtomParseError::message(
-				Some(stco.ident.clone()),
-				"found an extended `stco` atom",
-			))
-			.into());
-		}
+	for moov in writer.find_all_contextual_atoms(*b"moov") {
+		// 32-bit offsets
+		for stco in moov.find_all_children(*b"stco", true) {
+			log::trace!("Found `stco` atom");
 
-		write_handle.seek(SeekFrom::Start(stco_start + ATOM_HEADER_LEN + 4))?;
-
-		let count = write_handle.read_u32::<BigEndian>()?;
-		for _ in 0..count {
-			let read_offset = write_handle.read_u32::<BigEndian>()?;
-			if u64::from(read_offset) < ilst_offset {
-				continue;
-			}
-			write_handle.seek(SeekFrom::Current(-4))?;
-			write_handle.write_u32::<BigEndian>((i64::from(read_offset) + difference) as u32)?;
+			// Skip version (1) + flags (3)
+			write_handle.seek(SeekFrom::Start(content_start(stco) + 4))?;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				(i64::from(read_offset) + difference) as u32
-			);
-		}
-	}
+			let count = write_handle.read_u32::<BigEndian>()?;
+			for _ in 0..count {
+				let read_offset = write_handle.read_u32::<BigEndian>()?;
+				if u64::from(read_offset) < edit_offset {
+					continue;
+				}
 
-	// 64-bit offsets
-	for co64 in moov.find_all_children(*b"co64", true) {
-		log::trace!("Found `co64` atom");
+				let Ok(new_offset) = u32::try_from(i64::from(read_offset) + difference) else {
+					return Err(TooMuchDataError.into());
+				};
 
-		write_handle.seek(SeekFrom::Start(co64.start + ATOM_HEADER_LEN + 8 + 4))?;
+				write_handle.seek(SeekFrom::Current(-4))?;
+				write_handle.write_u32::<BigEndian>(new_offset)?;
 
-		let count = write_handle.read_u32::<BigEndian>()?;
-		for _ in 0..count {
-			let read_offset = write_handle.read_u64::<BigEndian>()?;
-			if read_offset < ilst_offset {
-				continue;
+				log::trace!("Updated offset from {read_offset} to {new_offset}");
 			}
-
-			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
-
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
 		}
-	}
-
-	let Some(moof) = writer.find_contextual_atom(*b"moof") else {
-		return Ok(());
-	};
 
-	log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
+		// 64-bit offsets
+		for co64 in moov.find_all_children(*b"co64", true) {
+			log::trace!("Found `co64` atom");
 
-	// 64-bit offsets
-	for tfhd in moof.find_all_children(*b"tfhd", true) {
-		log::trace!("Found `tfhd` atom");
+			// Skip version (1) + flags (3)
+			write_handle.seek(SeekFrom::Start(content_start(co64) + 4))?;
 
-		let tfhd_start = tfhd.start;
-		if tfhd.extended {
-			return Err(FileParseError::from(AtomParseError::message(
-				Some(tfhd.ident.clone()),
-				"found an extended `tfhd` atom",
-			))
-			.into());
+			let count = write_handle.read_u32::<BigEndian>()?;
+			for _ in 0..count {
+				update_64_bit_offset(&mut write_handle, difference, edit_offset)?;
+			}
 		}
+	}
 
-		// Skip atom header + version (1)
-		write_handle.seek(SeekFrom::Start(tfhd_start + ATOM_HEADER_LEN + 1))?;
+	for moof in writer.find_all_contextual_atoms(*b"moof") {
+		log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
 
-		let flags = write_handle.read_u24::<BigEndian>()?;
-		let base_data_offset = (flags & 0b1) != 0;
+		// 64-bit offsets
+		for tfhd in moof.find_all_children(*b"tfhd", true) {
+			log::trace!("Found `tfhd` atom");
 
-		if base_data_offset {
-			let read_offset = write_handle.read_u64::<BigEndian>()?;
-			if read_offset < ilst_offset {
-				continue;
-			}
+			// Skip version (1)
+			write_handle.seek(SeekFrom::Start(content_start(tfhd) + 1))?;
 
-			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			let flags = write_handle.read_u24::<BigEndian>()?;
+			let base_data_offset = (flags & 0b1) != 0;
 
-			log::trace!(
-				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
-			);
+			if base_data_offset {
+				// Skip track ID (4)
+				write_handle.seek(SeekFrom::Current(4))?;
+				update_64_bit_offset(&mut write_handle, difference, edit_offset)?;
+			}
 		}
 	}
 
@@ -543,6 +419,27 @@ fn update_offsets(
 	Ok(())
 }
 
+fn update_64_bit_offset(
+	write_handle: &mut AtomWriterCompanion<'_>,
+	difference: i64,
+	edit_offset: u64,
+) -> Result<(), FileEncodingError> {
+	let read_offset = write_handle.read_u64::<BigEndian>()?;
+	if read_offset < edit_offset {
+		return Ok(());
+	}
+
+	let Some(new_offset) = read_offset.checked_add_signed(difference) else {
+		return Err(TooMuchDataError.into());
+	};
+
+	write_handle.seek(SeekFrom::Current(-8))?;
+	write_handle.write_u64::<BigEndian>(new_offset)?;
+
+	log::trace!("Updated offset from {read_offset} to {new_offset}");
+	Ok(())
+}
+
 fn create_udta(ilst: &[u8], write_options: WriteOptions) -> Result<Vec<u8>, FileEncodingError> {
 	const UDTA_HEADER: [u8; 8] = [0, 0, 0, 0, b'u', b'd', b't', b'a'];
 
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index c85b2d7..83db94c 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -7,7 +7,7 @@ use crate::error::TagParseError;
 use crate::mp4::error::Mp4ParseError;
 use crate::mp4::ilst::error::IlstParseError;
 
-use std::io::{Read, Seek};
+use std::io::{Read, Seek, SeekFrom};
 
 pub(crate) struct Moov {
 	// Represents the trak.mdia atom
@@ -50,16 +50,23 @@ impl Moov {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
 						// All we need from here is trak.mdia
-						if let Some(mdia) =
-							find_child_atom(reader, atom.len, *b"mdia", parse_options.parsing_mode)?
-						{
-							skip_atom(reader, mdia.extended, mdia.len)?;
+						if let Some(mdia) = find_child_atom(
+							reader,
+							atom.content_len(),
+							*b"mdia",
+							parse_options.parsing_mode,
+						)? {
 							traks.push(mdia);
 						}
+
+						// Skip any remaining children, they may contain their own `udta`
+						reader.seek(SeekFrom::Start(atom.end()))?;
 					},
 					b"udta" if parse_options.read_tags => {
-						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.len - 8)
+						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.content_len())
 							.map_err(TagParseError::from)?;
+						reader.seek(SeekFrom::Start(atom.end()))?;
+
 						if let Some(ilst_parsed) = ilst_parsed {
 							let Some(mut existing_ilst) = ilst else {
 								ilst = Some(ilst_parsed);
@@ -95,7 +102,7 @@ fn ilst_from_udta<R>(
 where
 	R: Read + Seek,
 {
-	let mut read = 8;
+	let mut read = 0;
 	let mut found_meta = false;
 	let mut meta_atom_size = 0;
 
@@ -106,7 +113,7 @@ where
 
 		if atom.ident == AtomIdent::Fourcc(*b"meta") {
 			found_meta = true;
-			meta_atom_size = atom.len;
+			meta_atom_size = atom.content_len();
 			break;
 		}
 
@@ -123,9 +130,9 @@ where
 	let full_meta_atom = meta_is_full(reader)?;
 
 	if full_meta_atom {
-		read = 12;
+		read = 4;
 	} else {
-		read = 8;
+		read = 0;
 	}
 
 	let mut found_ilst = false;
@@ -138,7 +145,7 @@ where
 
 		if atom.ident == AtomIdent::Fourcc(*b"ilst") {
 			found_ilst = true;
-			ilst_atom_size = atom.len;
+			ilst_atom_size = atom.content_len();
 			break;
 		}
 
@@ -147,7 +154,7 @@ where
 	}
 
 	if found_ilst {
-		return parse_ilst(reader, parse_options, ilst_atom_size - 8).map(Some);
+		return parse_ilst(reader, parse_options, ilst_atom_size).map(Some);
 	}
 
 	Ok(None)
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f86f52d..aaf28dc 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -307,9 +307,9 @@ where
 		mdhd = None;
 		minf = None;
 
-		reader.seek(SeekFrom::Start(mdia.start + 8))?;
+		reader.seek(SeekFrom::Start(mdia.start + mdia.header_size()))?;
 
-		let mut read = 8;
+		let mut read = mdia.header_size();
 		while read < mdia.len {
 			let Some(atom) = reader.next()? else { break };
 
@@ -338,9 +338,12 @@ where
 							audio_track = true
 						}
 
-						skip_atom(reader, atom.extended, atom.len - 12)?;
+						reader.seek(SeekFrom::Start(atom.end()))?;
+					},
+					b"minf" => {
+						skip_atom(reader, atom.extended, atom.len)?;
+						minf = Some(atom)
 					},
-					b"minf" => minf = Some(atom),
 					_ => {
 						skip_atom(reader, atom.extended, atom.len)?;
 					},
@@ -493,7 +496,7 @@ impl Minf {
 			let mut stsd_data = None;
 			let mut stts = None;
 
-			let mut read = 8;
+			let mut read = stbl.header_size();
 			while read < stbl.len {
 				let Some(atom) = reader.next()? else { break };
 
@@ -509,7 +512,7 @@ impl Minf {
 							where
 								R: Read + Seek,
 							{
-								let mut stsd = try_vec![0; (atom.len - 8) as usize]?;
+								let mut stsd = try_vec![0; atom.content_len() as usize]?;
 								reader.read_exact(&mut stsd)?;
 								Ok(stsd)
 							}
@@ -518,7 +521,10 @@ impl Minf {
 								parse_stsd(reader, &atom).map_err(|e| e.with_ident(atom.ident))?,
 							);
 						},
-						b"stts" => stts = Some(Stts::parse(reader)?),
+						b"stts" => {
+							stts = Some(Stts::parse(reader)?);
+							reader.seek(SeekFrom::Start(atom.end()))?;
+						},
 						_ => {
 							skip_atom(reader, atom.extended, atom.len)?;
 						},
@@ -645,7 +651,9 @@ where
 				// Special case to detect encrypted files
 				b"drms" => {
 					properties.drm_protected = true;
-					skip_atom(reader, false, offset - atom.start)
+					reader
+						.seek(SeekFrom::Start(atom.end().max(offset)))
+						.map_err(AtomParseError::from)
 						.map_err(|e| e.with_ident(atom.ident))?;
 					continue;
 				},
@@ -654,7 +662,7 @@ where
 						"Found unsupported sample entry: {:?}",
 						descriptor_format.escape_ascii().to_string()
 					);
-					skip_atom(reader, false, offset - atom.start)?;
+					reader.seek(SeekFrom::Start(atom.end().max(offset)))?;
 					continue;
 				},
 			}
@@ -682,7 +690,7 @@ where
 	// We need the mdhd and minf atoms from the audio track
 	let AudioTrak { mdhd, minf } = find_audio_trak(reader, traks)?;
 
-	reader.seek(SeekFrom::Start(mdhd.start + 8))?;
+	reader.seek(SeekFrom::Start(mdhd.start + mdhd.header_size()))?;
 	let Mdhd {
 		timescale,
 		duration,
@@ -701,8 +709,9 @@ where
 		return Ok(properties);
 	};
 
-	reader.seek(SeekFrom::Start(minf_info.start + 8))?;
-	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
+	reader.seek(SeekFrom::Start(minf_info.start + minf_info.header_size()))?;
+	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.content_len(), parse_mode)?
+	else {
 		return Ok(properties);
 	};
 
@@ -1029,7 +1038,7 @@ where
 
 	while let Ok(Some(atom)) = reader.next() {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
-			return Ok(atom.len - 8);
+			return Ok(atom.content_len());
 		}
 
 		skip_atom(reader, atom.extended, atom.len)?;
diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 7861b5d..6169f62 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -113,30 +113,27 @@ where
 	R: Read + Seek,
 {
 	fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+		let bound_end = self.start.saturating_add(self.len);
+
 		match pos {
+			// Positions are absolute, as returned by `stream_position()`
 			SeekFrom::Start(s) => {
-				if s > self.len {
-					self.remaining_size = 0;
-
-					let bound_end = self.start + self.len;
-					return self.reader.seek(SeekFrom::Start(bound_end));
-				}
-
-				let ret = self.reader.seek(SeekFrom::Start(self.start + s))?;
-				self.remaining_size = self.len.saturating_sub(ret);
+				let ret = self.reader.seek(SeekFrom::Start(s.min(bound_end)))?;
+				self.remaining_size = bound_end - ret;
 				Ok(ret)
 			},
 			SeekFrom::End(s) => {
-				if s >= 0 {
-					self.remaining_size = 0;
-					return self.reader.seek(SeekFrom::Start(self.start + self.len));
-				}
+				let relative_seek_count = if s >= 0 {
+					0
+				} else {
+					core::cmp::min(self.len, s.unsigned_abs())
+				};
 
-				let bound_end = self.start + self.len;
-				let relative_seek_count = core::cmp::min(self.len, s.unsigned_abs());
-				self.reader.seek(SeekFrom::Start(
-					bound_end.saturating_sub(relative_seek_count),
-				))
+				let ret = self
+					.reader
+					.seek(SeekFrom::Start(bound_end - relative_seek_count))?;
+				self.remaining_size = relative_seek_count;
+				Ok(ret)
 			},
 			SeekFrom::Current(s) => {
 				if s.is_negative() {
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 5954072..de0646c 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -61,7 +61,10 @@ where
 
 	// Find the `moov` atom and restrict the reader to its length
 	let moov_info = Moov::find(&mut reader)?;
-	reader.reset_bounds(moov_info.start + 8, moov_info.len - 8);
+	reader.reset_bounds(
+		moov_info.start + moov_info.header_size(),
+		moov_info.content_len(),
+	);
 
 	let moov = Moov::parse(&mut reader, parse_options)?;
 
@@ -97,27 +100,31 @@ pub(super) fn skip_atom<R>(reader: &mut R, extended: bool, len: u64) -> Result<(
 where
 	R: Read + Seek,
 {
-	log::trace!("Attempting to skip {} bytes", len - 8);
+	let header_len = if extended { 16 } else { 8 };
+	let to_skip = len.saturating_sub(header_len);
 
-	if !extended {
-		reader.seek(SeekFrom::Current(i64::from(len as u32) - 8))?;
-		return Ok(());
-	}
-
-	let pos = reader.stream_position()?;
+	log::trace!("Attempting to skip {to_skip} bytes");
 
-	let Some(pos) = pos.checked_add(len - 8) else {
+	let Ok(to_skip) = i64::try_from(to_skip) else {
 		return Err(TooMuchDataError.into());
 	};
 
-	reader.seek(SeekFrom::Start(pos))?;
+	if reader
+		.stream_position()?
+		.checked_add_signed(to_skip)
+		.is_none()
+	{
+		return Err(TooMuchDataError.into());
+	}
+
+	reader.seek(SeekFrom::Current(to_skip))?;
 
 	Ok(())
 }
 
 /// Finds the first child atom with the given fourcc
 ///
-/// * `len` is the length of the parent atom
+/// * `len` is the length of the parent atom's content
 /// * `expected` is the fourcc of the child atom to find
 pub(super) fn find_child_atom<R>(
 	reader: &mut R,
@@ -130,7 +137,7 @@ where
 {
 	let mut ret = None;
 
-	while len > 8 {
+	while len >= 8 {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
@@ -165,7 +172,7 @@ where
 
 	let mut i = 0;
 
-	while len > 8 {
+	while len >= 8 {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 276c5cf..353e743 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -25,6 +25,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 	*b"moov",
 		*b"udta",
 		*b"moof",
+		*b"traf",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
@@ -157,6 +158,15 @@ impl AtomWriter {
 			.find(|atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
 	}
 
+	pub(super) fn find_all_contextual_atoms(
+		&self,
+		fourcc: [u8; 4],
+	) -> impl Iterator<Item = &ContextualAtom> {
+		self.atoms.iter().filter(
+			move |atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc),
+		)
+	}
+
 	pub(super) fn into_contents(self) -> Vec<u8> {
 		self.contents.into_inner().into_inner()
 	}
@@ -212,7 +222,7 @@ impl AtomWriterCompanion<'_> {
 		size: u64,
 		extended: bool,
 	) -> std::io::Result<()> {
-		if u32::try_from(size).is_ok() {
+		if !extended && u32::try_from(size).is_ok() {
 			// ???? (identifier)
 			self.write_u32::<BigEndian>(size as u32)?;
 			self.seek(SeekFrom::Current(IDENTIFIER_LEN as i64))?;
-- 
2.43.0


From 752be6ed0d89216657763d9e00901ed0e40d2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 012/113] fix: Read the full MP4 AudioSpecificConfig and avoid
 overflows in MP4 properties

---
 lofty/src/mp4/properties.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index aaf28dc..be978a7 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -700,8 +700,9 @@ where
 	let mut properties = Mp4Properties::default();
 
 	if timescale > 0 {
-		let duration_millis = (duration * 1000).div_round(u64::from(timescale));
-		properties.duration = Duration::from_millis(duration_millis);
+		let duration_millis = (u128::from(duration) * 1000).div_round(u128::from(timescale));
+		properties.duration =
+			Duration::from_millis(u64::try_from(duration_millis).unwrap_or(u64::MAX));
 	}
 
 	// We need an `mdhd` atom at the bare minimum, everything else can be optional.
@@ -858,7 +859,7 @@ where
 				if object_type == 31 {
 					extended_object_type = true;
 
-					object_type = 32 + ((byte_a & 7) | (byte_b >> 5));
+					object_type = 32 + (((byte_a & 7) << 3) | (byte_b >> 5));
 					frequency_index = (byte_b >> 1) & 0x0F;
 				}
 
@@ -873,14 +874,18 @@ where
 						let sample_rate;
 						let explicit_sample_rate = stsd.read_u24()?;
 						if extended_object_type {
-							sample_rate = explicit_sample_rate >> 1;
-							channel_conf = ((explicit_sample_rate >> 4) & 0x0F) as u8;
-						} else {
-							sample_rate = explicit_sample_rate << 1;
-							let byte_c = stsd.read_u8()?;
+							// 1 bit in `byte_b`, 23 bits in `explicit_sample_rate`
+							sample_rate =
+								(u32::from(byte_b & 1) << 23) | (explicit_sample_rate >> 1);
 
+							let byte_c = stsd.read_u8()?;
 							channel_conf =
-								((explicit_sample_rate & 0x80) as u8 | (byte_c >> 1)) & 0x0F;
+								(((explicit_sample_rate & 1) << 3) as u8) | (byte_c >> 5);
+						} else {
+							// 7 bits in `byte_b`, 17 bits in `explicit_sample_rate`
+							sample_rate =
+								(u32::from(byte_b & 0x7F) << 17) | (explicit_sample_rate >> 7);
+							channel_conf = ((explicit_sample_rate >> 3) & 0x0F) as u8;
 						}
 
 						// Just use the sample rate we already read above if this is invalid
@@ -893,7 +898,7 @@ where
 
 						if extended_object_type {
 							let byte_c = stsd.read_u8()?;
-							channel_conf = (byte_b & 1) | (byte_c & 0xE0);
+							channel_conf = ((byte_b & 1) << 3) | (byte_c >> 5);
 						} else {
 							channel_conf = (byte_b >> 3) & 0x0F;
 						}
@@ -910,15 +915,16 @@ where
 
 				// We just check for ALS here, might extend it for more codes eventually
 				if object_type == 36 {
-					let mut ident = [0; 5];
+					let mut ident = [0; 4];
 					stsd.read_exact(&mut ident)?;
 
-					if &ident == b"\0ALS\0" {
+					if &ident == b"ALS\0" {
 						properties.sample_rate = Some(stsd.read_u32()?);
 
 						// Sample count
 						stsd.seek(SeekFrom::Current(4))?;
-						properties.channels = Some(stsd.read_u16()? as u8 + 1);
+						let channels = u32::from(stsd.read_u16()?) + 1;
+						properties.channels = u8::try_from(channels).ok();
 					}
 				}
 			}
@@ -1010,7 +1016,7 @@ where
 	// Flags (3)
 	stsd.seek(SeekFrom::Current(4))?;
 
-	if dfla.len - 12 < 18 {
+	if dfla.len < 12 + 18 {
 		// The atom isn't long enough to hold a STREAMINFO block, also not worth an error.
 		return Ok(());
 	}
-- 
2.43.0


From c25860cb8db08e65352e05f351b78fa5cade0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 013/113] fix: Encode UTF-16 ilst values as UTF-16

---
 lofty/src/mp4/ilst/write.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 267755a..8858783 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -586,7 +586,10 @@ where
 	for value in data {
 		match value {
 			AtomData::UTF8(text) => write_data(DataType::Utf8, text.as_bytes(), writer)?,
-			AtomData::UTF16(text) => write_data(DataType::Utf16, text.as_bytes(), writer)?,
+			AtomData::UTF16(text) => {
+				let encoded: Vec<u8> = text.encode_utf16().flat_map(u16::to_be_bytes).collect();
+				write_data(DataType::Utf16, &encoded, writer)?
+			},
 			AtomData::Picture(pic) => write_picture(pic, writer)?,
 			AtomData::SignedInteger(int) => write_signed_int(*int, writer)?,
 			AtomData::UnsignedInteger(uint) => write_unsigned_int(*uint, writer)?,
-- 
2.43.0


From e20f8dfaf1a56363083e498ac29aee51adec2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 014/113] fix: Don't mistake an APE preamble for an ID3v1 tag

---
 lofty/src/id3/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 075f1d4..e2f6225 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -8,6 +8,7 @@
 pub mod v1;
 pub mod v2;
 
+use crate::ape::constants::APE_PREAMBLE;
 use crate::config::ParsingMode;
 use crate::error::TextDecodingError;
 use crate::id3::v1::error::Id3v1ParseError;
@@ -137,6 +138,19 @@ where
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
+	// The "TAG" may be a part of the preamble of an APE header or footer
+	if data.seek(SeekFrom::End(-131)).is_ok() {
+		let mut ape_preamble = [0; 8];
+		data.read_exact(&mut ape_preamble)?;
+
+		if &ape_preamble == APE_PREAMBLE {
+			data.seek(SeekFrom::End(0))?;
+			return Ok(ID3FindResults(header, id3v1));
+		}
+	}
+
+	data.seek(SeekFrom::End(-128))?;
+
 	log::debug!("Found an ID3v1 tag, parsing");
 
 	header = Some(());
-- 
2.43.0


From 70edfd6cb79e596d290d10f6dbe3f5e86d037241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 015/113] fix: Keep zero-length packets when paginating

---
 ogg_pager/src/paginate.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 4a6f355..b31248a 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -158,6 +158,18 @@ where
 fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 	let mut page_content = Vec::with_capacity(MAX_WRITTEN_CONTENT_SIZE);
 	let mut packet = packet;
+
+	// A zero-length packet is still a packet, it takes up a single zero-length segment
+	if packet.is_empty() {
+		ctx.flags.packet_finished_on_page = true;
+		ctx.flush_page(&mut page_content);
+
+		ctx.flags.first_page = false;
+		ctx.flags.fresh_packet = false;
+
+		return Ok(());
+	}
+
 	loop {
 		if packet.is_empty() {
 			break;
-- 
2.43.0


From 0bbbde3367d3662a5c0cfae37bbea4b28b406d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:19 +0000
Subject: [PATCH 016/113] fix: Keep everything behind the header packets when
 writing Ogg comments

---
 lofty/src/ogg/tag/write.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index c9ef0fa..589b484 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -119,12 +119,25 @@ where
 		)
 		.map_err(|e| FileEncodingError::new(format, e.into()))? as u32;
 
-	// Correct all remaining page sequence numbers
+	// Correct the sequence numbers of all remaining pages of the stream
 	let mut pages_reader = Cursor::new(&remaining_file_content[..]);
 	let mut idx = 0;
-	while let Ok(mut page) = Page::read(&mut pages_reader) {
-		let header = page.header_mut();
-		header.sequence_number = pages_written + idx;
+	loop {
+		let page_start = pages_reader.position() as usize;
+		let Ok(mut page) = Page::read(&mut pages_reader) else {
+			// Anything that isn't a page is kept as is
+			file.write_all(&remaining_file_content[page_start..])?;
+			break;
+		};
+
+		// Pages of other logical streams have their own sequence
+		if page.header().stream_serial != stream_serial {
+			let page_end = pages_reader.position() as usize;
+			file.write_all(&remaining_file_content[page_start..page_end])?;
+			continue;
+		}
+
+		page.header_mut().sequence_number = pages_written + idx;
 		page.gen_crc();
 		file.write_all(&page.as_bytes())?;
 
-- 
2.43.0


From 6969dfb52a5ed9527e51f2308d075b06dfe635b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 017/113] fix: Account for chunk padding when writing RIFF INFO
 lists

---
 lofty/src/iff/wav/tag/write.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 6bbdb00..5be0171 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -13,6 +13,7 @@ use crate::util::io::FileLike;
 
 use std::borrow::Cow;
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::ops::Range;
 
 use byteorder::{LittleEndian, WriteBytesExt};
 
@@ -47,15 +48,25 @@ where
 
 	file_bytes.seek(SeekFrom::Start(u64::from(FIRST_CHUNK_LEN)))?;
 
-	let Some(original_info_list_size) = find_info_list(
+	let Some(original_info_list) = find_info_list(
 		&mut file_bytes,
 		u64::from(original_stream_length - 4),
 		write_options.parse_options.parsing_mode,
 	)
 	.map_err(FileParseError::from)?
 	else {
+		// Nothing to remove
+		if riff_info_bytes.is_empty() {
+			return Ok(());
+		}
+
 		// Simply append the info list to the end of the file and update the file size
 
+		// Chunks always start on even boundaries, the last one may be missing its padding
+		if !original_stream_length.is_multiple_of(2) {
+			riff_info_bytes.insert(0, 0);
+		}
+
 		let new_stream_length = riff_info_bytes.len() as u64 + u64::from(original_stream_length);
 		if new_stream_length > u64::from(u32::MAX) {
 			return Err(TooMuchDataError.into());
@@ -82,11 +93,9 @@ where
 
 	// Replace the existing tag
 
-	let info_list_start = file_bytes.seek(SeekFrom::Current(-12))? as usize;
-
-	// `original_info_list_size` doesn't include the b"LIST\0\0\0\0" chunk header
-	let info_list_end =
-		info_list_start + (IFF_CHUNK_HEADER_SIZE + original_info_list_size) as usize;
+	// The range is relative to the first chunk in the stream
+	let info_list_start = FIRST_CHUNK_LEN as usize + original_info_list.start as usize;
+	let info_list_end = FIRST_CHUNK_LEN as usize + original_info_list.end as usize;
 	let original_info_list = info_list_start..info_list_end;
 
 	let new_stream_length = riff_info_bytes.len() as u64
@@ -110,11 +119,12 @@ where
 	Ok(())
 }
 
+/// Find the range of the `LIST` chunk (including its padding), relative to the reader's position
 fn find_info_list<R>(
 	data: &mut R,
 	file_size: u64,
 	parse_mode: ParsingMode,
-) -> Result<Option<u32>, WavParseError>
+) -> Result<Option<Range<u64>>, WavParseError>
 where
 	R: Read + Seek,
 {
@@ -137,7 +147,9 @@ where
 				chunk.size()
 			);
 
-			info = Some(chunk.size());
+			let start = chunk.start();
+			chunks.skip()?;
+			info = Some(start..chunks.stream_position());
 			break;
 		}
 	}
-- 
2.43.0


From c4abf4e4f4fa06a6f0550400b11f10cc1998f77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 018/113] fix: Keep data following the FORM chunk out of its
 size when writing AIFF text chunks

---
 lofty/src/iff/aiff/tag/mod.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 624d412..107794d 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -11,11 +11,11 @@ use crate::tag::{
 };
 use crate::util::io::FileLike;
 
-use byteorder::BigEndian;
+use byteorder::{BigEndian, ReadBytesExt};
 use lofty_attr::tag;
 use std::borrow::Cow;
 use std::convert::TryFrom;
-use std::io::{Read, Seek, Write};
+use std::io::{Read, Seek, SeekFrom, Write};
 use std::ops::Range;
 
 /// Represents an AIFF `COMT` chunk
@@ -435,15 +435,25 @@ where
 		let mut file = file.into_inner();
 
 		super::read::verify_aiff(&mut file).map_err(FileParseError::from)?;
-		let file_len = file.len()?.saturating_sub(FIRST_CHUNK_LEN);
+		let file_len = file.len()?;
+
+		// There may be data following the `FORM` chunk, which isn't ours to touch
+		file.seek(SeekFrom::Start(4))?;
+		let form_size = file.read_u32::<BigEndian>()?;
+		let stream_len = (u64::from(form_size) + u64::from(IFF_CHUNK_HEADER_SIZE)).min(file_len);
+		file.seek(SeekFrom::Start(FIRST_CHUNK_LEN))?;
 
 		let text_chunks = Self::create_text_chunks(&mut tag).map_err(TagEncodingError::from)?;
 
 		let ExistingChunks {
 			text_chunks: mut existing_text_chunks,
 			comm_end_pos,
-		} = find_text_chunks(&mut file, file_len, write_options.parse_options)
-			.map_err(FileParseError::from)?;
+		} = find_text_chunks(
+			&mut file,
+			stream_len.saturating_sub(FIRST_CHUNK_LEN),
+			write_options.parse_options,
+		)
+		.map_err(FileParseError::from)?;
 		file.rewind()?;
 
 		let mut file_bytes = Vec::new();
@@ -464,7 +474,11 @@ where
 			file_bytes.splice(first, text_chunks);
 		}
 
-		let total_size = ((file_bytes.len() - IFF_CHUNK_HEADER_SIZE as usize) as u32).to_be_bytes();
+		let stream_len = file_bytes.len() as u64 - (file_len - stream_len);
+		let Ok(total_size) = u32::try_from(stream_len - u64::from(IFF_CHUNK_HEADER_SIZE)) else {
+			return Err(TooMuchDataError.into());
+		};
+		let total_size = total_size.to_be_bytes();
 		file_bytes.splice(4..8, total_size.to_vec());
 
 		file.rewind()?;
@@ -485,7 +499,7 @@ struct ExistingChunks {
 
 fn find_text_chunks<F>(
 	file: &mut F,
-	file_len: u64,
+	stream_len: u64,
 	parse_options: ParseOptions,
 ) -> Result<ExistingChunks, AiffParseError>
 where
@@ -494,7 +508,7 @@ where
 	let mut text_chunks = Vec::new();
 	let mut comm_end_pos = None;
 
-	let mut chunks = Chunks::<_, BigEndian>::new(file, file_len);
+	let mut chunks = Chunks::<_, BigEndian>::new(file, stream_len);
 	while let Some(chunk) = chunks.next(parse_options.parsing_mode)? {
 		match &chunk.fourcc {
 			b"NAME" | b"AUTH" | b"(c) " | b"ANNO" | b"COMT" => {
-- 
2.43.0


From 8ab9958cb33ad9ac3be131697b598a13af442854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 019/113] fix: Pad the last chunk before appending an ID3v2
 chunk

---
 lofty/src/id3/v2/write/chunk_file.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 85dae26..e2b9ee6 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -162,6 +162,17 @@ where
 
 	let mut tag_bytes = Vec::new();
 	if !tag.is_empty() {
+		let existing_tag_len = file_context
+			.existing_id3_tag
+			.as_ref()
+			.map_or(0, |existing_tag| existing_tag.end - existing_tag.start);
+
+		// Chunks always start on even boundaries, the last one may be missing its padding
+		if !(file_context.stream_length - existing_tag_len).is_multiple_of(2) {
+			tag_bytes.push(0);
+			tag_chunk_size += 1;
+		}
+
 		write_id3v2_chunk::<_, B>(tag, write_options, &mut tag_bytes)?;
 	}
 
-- 
2.43.0


From 121abf5d7e71c100f42490b2df871cdcb49b2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 020/113] fix: Only search for junk-preceded ID3v2 tags in
 front of the audio when writing, and replace duplicate tags

---
 lofty/src/id3/mod.rs          |  2 +-
 lofty/src/id3/v2/write/mod.rs | 55 +++++++++++++++++++++++++++++++----
 lofty/src/mpeg/mod.rs         |  2 +-
 lofty/src/mpeg/read.rs        |  2 +-
 4 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index e2f6225..71ee123 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -239,7 +239,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Current(-10))?;
+		reader.seek(SeekFrom::Start(start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index c07a702..1bca533 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -3,21 +3,24 @@ pub(in crate::id3::v2) mod frame;
 
 use super::{Frame, Id3v2TagFlags};
 use crate::config::WriteOptions;
-use crate::error::{FileEncodingError, TagEncodingError, TagParseError};
+use crate::error::{FileEncodingError, FileParseError, TagEncodingError, TagParseError};
 use crate::file::FileType;
 use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
-use crate::id3::{FindId3v2Config, find_id3v2};
+use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v2};
 use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
+use crate::mpeg::read::find_next_frame;
 use crate::util::io::FileLike;
 
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 use std::ops::Not;
 use std::sync::LazyLock;
 
-use byteorder::{BigEndian, LittleEndian, WriteBytesExt};
+use byteorder::{BigEndian, LittleEndian, ReadBytesExt, WriteBytesExt};
+
+const ID3V2_IDENTIFIER_LEN: u64 = 3;
 
 // In the very rare chance someone wants to write a CRC in their extended header
 static CRC32_TABLE: LazyLock<[u32; 256]> = LazyLock::new(|| {
@@ -73,12 +76,29 @@ where
 		}
 	}
 
+	let format = file.format();
 	let mut file = file.into_inner();
 
 	// `find_id3v2` will seek us to the end of the tag
-	let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
-	id3v2_config.allowed_junk_window = Some(write_options.parse_options.max_junk_bytes as u64);
-	find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+	let ID3FindResults(existing_tag, _) =
+		find_id3v2(&mut file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
+	if existing_tag.is_none() {
+		// The tag may be preceded by junk, but never by audio
+		let junk_len = leading_junk_len(&mut file, format)?;
+		file.rewind()?;
+
+		let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
+		id3v2_config.allowed_junk_window =
+			Some(junk_len.min(write_options.parse_options.max_junk_bytes as u64));
+		find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+	}
+
+	// Duplicate tags are read as one, so they're also replaced as one
+	if matches!(format, FileType::Mpeg | FileType::Aac) && file.stream_position()? > 0 {
+		while let ID3FindResults(Some(_), _) =
+			find_id3v2(&mut file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?
+		{}
+	}
 
 	let mut file_bytes = Vec::new();
 	file.read_to_end(&mut file_bytes)?;
@@ -92,6 +112,29 @@ where
 	Ok(())
 }
 
+/// Get the number of bytes at the start of the file that can't be audio
+fn leading_junk_len<F>(file: &mut F, format: FileType) -> Result<u64, FileParseError>
+where
+	F: FileLike,
+{
+	match format {
+		FileType::Mpeg => {
+			let first_frame = find_next_frame(file)?;
+			Ok(first_frame.map_or(u64::MAX, |(_, first_frame_offset)| first_frame_offset))
+		},
+		FileType::Aac => {
+			// Only invalid padding is allowed in front of a tag
+			let mut padding_len = 0;
+			while file.read_u8()? == 0 {
+				padding_len += 1;
+			}
+
+			Ok(padding_len + ID3V2_IDENTIFIER_LEN)
+		},
+		_ => Ok(0),
+	}
+}
+
 pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	tag: &mut Id3v2TagRef<'a, I>,
 	write_options: WriteOptions,
diff --git a/lofty/src/mpeg/mod.rs b/lofty/src/mpeg/mod.rs
index 69ceaf3..76af640 100644
--- a/lofty/src/mpeg/mod.rs
+++ b/lofty/src/mpeg/mod.rs
@@ -3,7 +3,7 @@ mod constants;
 pub mod error;
 pub(crate) mod header;
 mod properties;
-mod read;
+pub(crate) mod read;
 
 pub use header::{ChannelMode, Emphasis, Layer, MpegVersion};
 pub use properties::MpegProperties;
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 467f0ac..50e88d8 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -227,7 +227,7 @@ where
 }
 
 // Searches for the next frame, comparing it to the following one
-fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
+pub(crate) fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
 where
 	R: Read + Seek,
 {
-- 
2.43.0


From 73d5b53fa6f28a2edb9da90424b310bb3e9760d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 021/113] fix: Only set a granule position on Ogg pages that
 finish a packet

---
 ogg_pager/src/paginate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index b31248a..130cb3b 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -182,7 +182,8 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 
 		packet = &packet[bytes_read..];
 
-		if bytes_read <= MAX_WRITTEN_CONTENT_SIZE && packet.is_empty() {
+		// A page full of 255 byte segments can't finish a packet, see the nil page below
+		if packet.is_empty() && ctx.remaining_page_size != 0 {
 			ctx.flags.packet_finished_on_page = true;
 		}
 
-- 
2.43.0


From 14d6ff3a3105a89703dc575cd88e3368a20e5dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 022/113] fix: Write the encoding used for the text of SYLT
 frames in ID3v2.3 form

---
 lofty/src/id3/v2/items/sync_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/sync_text.rs b/lofty/src/id3/v2/items/sync_text.rs
index 301ee7f..2e04034 100644
--- a/lofty/src/id3/v2/items/sync_text.rs
+++ b/lofty/src/id3/v2/items/sync_text.rs
@@ -300,7 +300,7 @@ impl SynchronizedTextFrame<'_> {
 			encoding = encoding.to_id3v23();
 		}
 
-		let mut data = vec![self.encoding as u8];
+		let mut data = vec![encoding as u8];
 
 		data.write_all(&self.language)?;
 		data.write_u8(self.timestamp_format as u8)?;
-- 
2.43.0


From c9099aa58d69d3293e08ffcf13187580e8182869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 023/113] fix: Don't fail on false ADTS frame syncs

---
 lofty/src/aac/header.rs | 12 +++---------
 lofty/src/aac/read.rs   | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/lofty/src/aac/header.rs b/lofty/src/aac/header.rs
index 3a84d13..cd8abef 100644
--- a/lofty/src/aac/header.rs
+++ b/lofty/src/aac/header.rs
@@ -1,4 +1,3 @@
-use crate::aac::error::AacParseError;
 use crate::config::ParsingMode;
 use crate::mp4::{AudioObjectType, SAMPLE_RATES};
 use crate::mpeg::MpegVersion;
@@ -24,10 +23,7 @@ pub(crate) struct ADTSHeader {
 }
 
 impl ADTSHeader {
-	pub(super) fn read<R>(
-		reader: &mut R,
-		_parse_mode: ParsingMode,
-	) -> Result<Option<Self>, AacParseError>
+	pub(super) fn read<R>(reader: &mut R, _parse_mode: ParsingMode) -> std::io::Result<Option<Self>>
 	where
 		R: Read + Seek,
 	{
@@ -82,10 +78,8 @@ impl ADTSHeader {
 
 		let sample_rate_idx = (byte3 >> 2) & 0b1111;
 		if sample_rate_idx == 15 {
-			// 15 is forbidden
-			return Err(AacParseError::message(
-				"file contains an invalid sample frequency index",
-			));
+			// 15 is forbidden, this isn't a frame
+			return Ok(None);
 		}
 
 		let sample_rate = SAMPLE_RATES[sample_rate_idx as usize];
diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 9e2a5f4..8d8f9ae 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -7,7 +7,7 @@ use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{ID3FindResults, find_id3v1};
 use crate::mpeg::header::{HeaderCmpResult, cmp_header, search_for_frame_sync};
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 
 use crate::error::{SizeMismatchError, TagParseError};
 use byteorder::ReadBytesExt;
@@ -175,7 +175,14 @@ where
 		// Seek back to the start of the frame and read the header
 		reader.seek(SeekFrom::Start(first_adts_frame_start_absolute))?;
 
-		if let Some(first_header) = ADTSHeader::read(reader, parsing_mode)? {
+		let header = match ADTSHeader::read(reader, parsing_mode) {
+			Ok(header) => header,
+			// Not enough data left for a header
+			Err(err) if err.kind() == ErrorKind::UnexpectedEof => return Ok(None),
+			Err(err) => return Err(err.into()),
+		};
+
+		if let Some(first_header) = header {
 			let header_len = if first_header.has_crc { 9 } else { 7 };
 
 			match cmp_header(
@@ -196,7 +203,9 @@ where
 			}
 		}
 
-		pos = reader.stream_position()?;
+		// Not a frame, continue right behind the false frame sync
+		pos = first_adts_frame_start_absolute + 1;
+		reader.seek(SeekFrom::Start(pos))?;
 	}
 
 	Ok(None)
-- 
2.43.0


From cd8ae0320e282442b0937ad9b7345173f3f0508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 024/113] fix: Write the URL of WXXX frames as Latin-1

---
 lofty/src/id3/v2/items/extended_url_frame.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/extended_url_frame.rs b/lofty/src/id3/v2/items/extended_url_frame.rs
index 7c30778..46e7952 100644
--- a/lofty/src/id3/v2/items/extended_url_frame.rs
+++ b/lofty/src/id3/v2/items/extended_url_frame.rs
@@ -150,7 +150,12 @@ impl<'a> ExtendedUrlFrame<'a> {
 				.encode(&self.description, true, write_options.lossy_text_encoding)?
 				.iter(),
 		);
-		bytes.extend(encoding.encode(&self.content, false, write_options.lossy_text_encoding)?);
+		// Only the description is in the specified encoding, the URL is always Latin-1
+		bytes.extend(TextEncoding::Latin1.encode(
+			&self.content,
+			false,
+			write_options.lossy_text_encoding,
+		)?);
 
 		Ok(bytes)
 	}
-- 
2.43.0


From aacf46a1806d057fb84ed20b2378459e5125a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 025/113] fix: Only strip byte order marks from the start of
 UTF-16 strings

---
 lofty/src/util/text.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lofty/src/util/text.rs b/lofty/src/util/text.rs
index fb526d3..c84d3d8 100644
--- a/lofty/src/util/text.rs
+++ b/lofty/src/util/text.rs
@@ -478,14 +478,21 @@ pub(crate) fn utf16_decode_bytes(
 		return Ok(String::new());
 	}
 
+	// In ID3v2, it is possible to have multiple UTF-16 strings separated by null.
+	// This also makes it possible for us to encounter multiple BOMs in a single string.
+	// We must filter them out. Anywhere else, they're part of the text.
+	let mut expect_bom = true;
 	let unverified: Vec<u16> = bytes
 		.chunks_exact(2)
-		// In ID3v2, it is possible to have multiple UTF-16 strings separated by null.
-		// This also makes it possible for us to encounter multiple BOMs in a single string.
-		// We must filter them out.
-		.filter_map(|c| match c {
-			[0xFF, 0xFE] | [0xFE, 0xFF] => None,
-			_ => Some(endianness(c.try_into().unwrap())), // Infallible
+		.filter_map(|c| {
+			let is_bom = expect_bom && matches!(c, [0xFF, 0xFE] | [0xFE, 0xFF]);
+			expect_bom = c == [0, 0];
+
+			if is_bom {
+				return None;
+			}
+
+			Some(endianness(c.try_into().unwrap())) // Infallible
 		})
 		.collect();
 
@@ -514,8 +521,8 @@ where
 	let bytes_read = raw_text.len() + terminator_len;
 	let decoded;
 	match &*raw_text {
-		[0xFF, 0xFE, ..] => decoded = utf16_decode_bytes(&raw_text[2..], u16::from_le_bytes),
-		[0xFE, 0xFF, ..] => decoded = utf16_decode_bytes(&raw_text[2..], u16::from_be_bytes),
+		[0xFF, 0xFE, ..] => decoded = utf16_decode_bytes(&raw_text, u16::from_le_bytes),
+		[0xFE, 0xFF, ..] => decoded = utf16_decode_bytes(&raw_text, u16::from_be_bytes),
 		_ => decoded = utf16_decode_bytes(&raw_text, endianness),
 	}
 
-- 
2.43.0


From 082276ca76e8c5eb6dff39a668f26a74d58ede9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 026/113] fix: Skip the pad byte behind odd-sized AIFF comments

---
 lofty/src/iff/aiff/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/iff/aiff/read.rs b/lofty/src/iff/aiff/read.rs
index f83013a..ae8f4d2 100644
--- a/lofty/src/iff/aiff/read.rs
+++ b/lofty/src/iff/aiff/read.rs
@@ -122,13 +122,18 @@ where
 				{
 					let num_comments = chunk.read_u16::<BigEndian>()?;
 
-					for _ in 0..num_comments {
+					for i in 0..num_comments {
 						let timestamp = chunk.read_u32::<BigEndian>()?;
 						let marker_id = chunk.read_u16::<BigEndian>()?;
 						let size = chunk.read_u16::<BigEndian>()?;
 
 						let text = chunk.read_string(Some(u32::from(size)))?;
 
+						// Odd-sized text is padded to an even size
+						if size % 2 != 0 && i + 1 < num_comments {
+							chunk.read_u8()?;
+						}
+
 						comments.push(Comment {
 							timestamp,
 							marker_id,
-- 
2.43.0


From 2424cf00300a697ad1939cd1b343a6cb75416aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 027/113] fix: Apply the allocation limit to the byte size of
 lists

---
 lofty/src/util/alloc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/util/alloc.rs b/lofty/src/util/alloc.rs
index ec1b8d3..49ca524 100644
--- a/lofty/src/util/alloc.rs
+++ b/lofty/src/util/alloc.rs
@@ -100,7 +100,8 @@ pub(crate) trait VecFallibleCapacity<T>: Sized {
 
 impl<T> VecFallibleCapacity<T> for Vec<T> {
 	fn try_with_capacity_stable(capacity: usize) -> Result<Self, AllocationError> {
-		if capacity > unsafe { global_options().allocation_limit } {
+		let size = capacity.saturating_mul(size_of::<T>());
+		if size > unsafe { global_options().allocation_limit } {
 			return Err(AllocationError::LimitExceeded);
 		}
 
-- 
2.43.0


From 8a7b0a41b9260973936e2a6f052db80326846616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 028/113] fix: Return an error when an APE tag is larger than
 the stream

---
 lofty/src/ape/read.rs     | 6 +++++-
 lofty/src/wavpack/read.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index 1397f2b..dde6537 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -150,7 +150,11 @@ where
 	if let (tag, Some(header)) =
 		read_ape_tag(data, true, parse_options).map_err(TagParseError::from)?
 	{
-		stream_len -= u64::from(header.size);
+		let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_len = new_stream_length;
 		ape_tag = tag;
 	}
 
diff --git a/lofty/src/wavpack/read.rs b/lofty/src/wavpack/read.rs
index 72aa464..fae6234 100644
--- a/lofty/src/wavpack/read.rs
+++ b/lofty/src/wavpack/read.rs
@@ -52,7 +52,11 @@ where
 	if let (tag, Some(header)) = crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
 		.map_err(TagParseError::from)?
 	{
-		stream_length -= u64::from(header.size);
+		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_length = new_stream_length;
 		ape_tag = tag;
 	}
 
-- 
2.43.0


From 1e8f63c130bba4028d8f067175910311054fe5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:51 +0000
Subject: [PATCH 029/113] fix: Avoid panics on unusual Opus, Speex and Musepack
 headers

---
 lofty/src/musepack/sv8/properties.rs |  8 ++++----
 lofty/src/ogg/opus/properties.rs     | 20 +++++++++++++++-----
 lofty/src/ogg/speex/properties.rs    | 14 ++++++++++----
 3 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/lofty/src/musepack/sv8/properties.rs b/lofty/src/musepack/sv8/properties.rs
index 65b19d8..e508d63 100644
--- a/lofty/src/musepack/sv8/properties.rs
+++ b/lofty/src/musepack/sv8/properties.rs
@@ -291,11 +291,11 @@ pub(super) fn read(
 		return Ok(properties);
 	}
 
-	let length = (total_samples * 1000).div_round(u64::from(sample_rate));
+	let length = (u128::from(total_samples) * 1000).div_round(u128::from(sample_rate));
 
-	properties.duration = Duration::from_millis(length);
-	properties.average_bitrate =
-		((stream_length * 8 * u64::from(sample_rate)) / (total_samples * 1000)) as u32;
+	properties.duration = Duration::from_millis(length as u64);
+	properties.average_bitrate = ((u128::from(stream_length) * 8 * u128::from(sample_rate))
+		/ (u128::from(total_samples) * 1000)) as u32;
 
 	Ok(properties)
 }
diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index ba23d83..289664d 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -121,8 +121,16 @@ where
 		));
 	}
 
+	if properties.channels == 0 {
+		return Err(FileParseError::message(
+			Some(FileType::Opus),
+			"invalid channel count, must be at least 1",
+		));
+	}
+
+	// Channels beyond the eighth have no defined meaning
 	properties.channel_mask =
-		ChannelMask::from_opus_channels(properties.channels).expect("Channel count is valid");
+		ChannelMask::from_opus_channels(properties.channels).unwrap_or_default();
 
 	let last_page = find_last_page(data);
 	let file_length = data.seek(SeekFrom::End(0))?;
@@ -140,7 +148,7 @@ where
 			.saturating_sub(u64::from(pre_skip));
 		if total_samples > 0 {
 			// Best case scenario
-			let length = (total_samples * 1000).div_round(48000);
+			let length = (u128::from(total_samples) * 1000).div_round(48000) as u64;
 
 			// Get the stream length by subtracting the length of the header packets
 
@@ -148,11 +156,13 @@ where
 			let metadata_packet = packets.get(1).unwrap();
 			let header_size = identification_packet.len() + metadata_packet.len();
 
-			let stream_len = file_length - header_size as u64;
+			let stream_len = file_length.saturating_sub(header_size as u64);
 
 			properties.duration = Duration::from_millis(length);
-			properties.overall_bitrate = ((file_length * 8) / length) as u32;
-			properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			if length > 0 {
+				properties.overall_bitrate = ((file_length * 8) / length) as u32;
+				properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			}
 		} else {
 			log::warn!("Opus: The file contains invalid PCM values, unable to calculate length");
 		}
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index 2cf3fb0..b19a1e0 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -169,7 +169,8 @@ where
 
 			// Best case scenario
 			if total_samples > 0 {
-				length = (total_samples * 1000).div_round(u64::from(properties.sample_rate));
+				length = (u128::from(total_samples) * 1000)
+					.div_round(u128::from(properties.sample_rate)) as u64;
 				properties.duration = Duration::from_millis(length);
 			} else {
 				log::warn!(
@@ -182,13 +183,18 @@ where
 	}
 
 	if properties.nominal_bitrate > 0 {
-		properties.overall_bitrate = (file_length.saturating_mul(8) / length) as u32;
+		if let Some(overall_bitrate) = file_length.saturating_mul(8).checked_div(length) {
+			properties.overall_bitrate = overall_bitrate as u32;
+		}
+
 		properties.audio_bitrate = (properties.nominal_bitrate as u64 / 1000) as u32;
 	} else {
 		log::warn!("Nominal bitrate = 0, estimating bitrate from file length");
 
-		properties.overall_bitrate = file_length.saturating_mul(8).div_round(length) as u32;
-		properties.audio_bitrate = stream_length.saturating_mul(8).div_round(length) as u32;
+		if length > 0 {
+			properties.overall_bitrate = file_length.saturating_mul(8).div_round(length) as u32;
+			properties.audio_bitrate = stream_length.saturating_mul(8).div_round(length) as u32;
+		}
 	}
 
 	Ok(properties)
-- 
2.43.0


From 397c07cc3666b20e14ac0fd188f525287fffe35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 030/113] fix: Remove tags from paths by content and with write
 access

---
 lofty/src/util/io.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 0be5517..07d7e97 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -6,7 +6,7 @@ use crate::util::math::F80;
 use crate::file::FileType;
 use crate::probe::Probe;
 use std::collections::VecDeque;
-use std::fs::File;
+use std::fs::{File, OpenOptions};
 use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};
 use std::ops::{Deref, DerefMut};
 use std::path::Path;
@@ -184,14 +184,14 @@ pub(crate) enum FileSource<'a, F> {
 	/// Sourced from an already open file handle
 	Ref(&'a mut F),
 	/// Sourced from a path
-	Path(BufReader<File>),
+	Path(File),
 }
 
 impl<F: FileLike> Length for FileSource<'_, F> {
 	fn len(&self) -> std::io::Result<u64> {
 		match self {
 			Self::Ref(file) => Length::len(file),
-			Self::Path(file) => Length::len(file.get_ref()),
+			Self::Path(file) => Length::len(file),
 		}
 	}
 }
@@ -200,7 +200,7 @@ impl<F: FileLike> Truncate for FileSource<'_, F> {
 	fn truncate(&mut self, size: u64) -> std::io::Result<()> {
 		match self {
 			Self::Ref(file) => Truncate::truncate(file, size),
-			Self::Path(file) => Truncate::truncate(file.get_mut(), size),
+			Self::Path(file) => Truncate::truncate(file, size),
 		}
 	}
 }
@@ -218,14 +218,14 @@ impl<F: FileLike> Write for FileSource<'_, F> {
 	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
 		match self {
 			Self::Ref(file) => Write::write(file, buf),
-			Self::Path(file) => Write::write(file.get_mut(), buf),
+			Self::Path(file) => Write::write(file, buf),
 		}
 	}
 
 	fn flush(&mut self) -> std::io::Result<()> {
 		match self {
 			Self::Ref(file) => Write::flush(file),
-			Self::Path(file) => Write::flush(file.get_mut()),
+			Self::Path(file) => Write::flush(file),
 		}
 	}
 }
@@ -270,11 +270,16 @@ impl<'a, F: FileLike> VerifiedFile<'a, F> {
 
 impl VerifiedFile<'_, File> {
 	pub(crate) fn new_from_path(path: &Path) -> Result<Self, FileParseError> {
-		let probe = Probe::open(path)?;
-		match probe.file_type() {
+		let mut file = OpenOptions::new().read(true).write(true).open(path)?;
+		let format = Probe::new(BufReader::new(&mut file))
+			.guess_file_type()?
+			.file_type();
+
+		file.rewind()?;
+		match format {
 			Some(format) => Ok(Self {
 				format,
-				file: FileSource::Path(probe.into_inner()),
+				file: FileSource::Path(file),
 			}),
 			None => Err(UnknownFormatError.into()),
 		}
-- 
2.43.0


From 4b5f4e274b52a8c48980d84d334b5a8ea79655da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 031/113] fix: Do not poison the resolver map on duplicate
 registration

---
 lofty/src/resolve.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index 9fd9981..8588c34 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -113,11 +113,11 @@ impl<T: FileResolver> ObjectSafeFileResolver for GhostlyResolver<T> {
 /// * See [`Mutex::lock`]
 pub fn register_custom_resolver<T: FileResolver + 'static>(name: &'static str) {
 	let mut res = CUSTOM_RESOLVERS.lock().unwrap();
-	assert!(
-		res.iter().all(|(n, _)| *n != name),
-		"Resolver `{}` already exists!",
-		name
-	);
+	if res.contains_key(name) {
+		// Release the lock before panicking, otherwise it'd be poisoned for every other user
+		drop(res);
+		panic!("Resolver `{name}` already exists!");
+	}
 
 	let ghost = GhostlyResolver::<T>(PhantomData);
 	let b: Box<dyn ObjectSafeFileResolver> = Box::new(ghost);
-- 
2.43.0


From 01759fc0af962544a88bc94315d8d7c47e2947f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:20 +0000
Subject: [PATCH 032/113] fix: Refuse to save empty tags of unsupported types

---
 lofty/src/tag/tag_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/tag/tag_ext.rs b/lofty/src/tag/tag_ext.rs
index c77ecc6..f81c157 100644
--- a/lofty/src/tag/tag_ext.rs
+++ b/lofty/src/tag/tag_ext.rs
@@ -108,7 +108,8 @@ pub trait TagExt: Accessor + TagWriteExt + Into<Tag> + Sized + private::Sealed {
 		let file = VerifiedFile::new(file)?;
 
 		// Empty tag writes are allowed for read-only formats, since they'll be stripped
-		if !file.format().tag_support(self.tag_type()).is_writable() && !self.is_empty() {
+		let support = file.format().tag_support(self.tag_type());
+		if !support.is_writable() && !(support.is_readable() && self.is_empty()) {
 			return Err(FileEncodingError::from(UnsupportedTagError).with_format(file.format()));
 		}
 
-- 
2.43.0


From 2941052c2921548fb2d7fc3e98210cd34a017c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 033/113] fix: Do not poison the resolver map on unregistered
 lookups

---
 lofty/src/resolve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index 8588c34..a37c99e 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -39,9 +39,10 @@ pub(crate) static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> =
 	LazyLock::new(Default::default);
 
 pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFileResolver {
-	let res = CUSTOM_RESOLVERS.lock().unwrap();
+	// NOTE: The lock must be released before panicking, otherwise it'd be poisoned for every other user
+	let resolver = CUSTOM_RESOLVERS.lock().unwrap().get(name).copied();
 
-	if let Some(resolver) = res.get(name).copied() {
+	if let Some(resolver) = resolver {
 		return resolver;
 	}
 
-- 
2.43.0


From e79ed17d7c73c21eda9abfedc52ceb012195d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 034/113] fix: Avoid panics on WAV and MP4 files with wrong
 sizes when saving

---
 lofty/src/iff/wav/tag/write.rs |  2 +-
 lofty/src/mp4/ilst/write.rs    | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 5be0171..fcd7cfb 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -50,7 +50,7 @@ where
 
 	let Some(original_info_list) = find_info_list(
 		&mut file_bytes,
-		u64::from(original_stream_length - 4),
+		u64::from(original_stream_length).saturating_sub(4),
 		write_options.parse_options.parsing_mode,
 	)
 	.map_err(FileParseError::from)?
diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 8858783..80807fb 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -1,7 +1,9 @@
 use super::data_type::DataType;
 use super::r#ref::IlstRef;
 use crate::config::WriteOptions;
-use crate::error::{FileEncodingError, FileParseError, TagEncodingError, TooMuchDataError};
+use crate::error::{
+	FileEncodingError, FileParseError, SizeMismatchError, TagEncodingError, TooMuchDataError,
+};
 use crate::file::FileType;
 use crate::io::VerifiedFile;
 use crate::macros::try_vec;
@@ -240,6 +242,11 @@ fn save_to_existing(
 	let succeeding = after_ilst.iter().take_while(is_free);
 	let range_end = succeeding.last().map_or(ilst_range.end, AtomInfo::end);
 
+	// The last atom may be lying about its length
+	if range_end > write_handle.len() as u64 {
+		return Err(SizeMismatchError.into());
+	}
+
 	let available_space = range_end - range_start;
 	let ilst_len = ilst.len() as u64;
 
@@ -286,6 +293,11 @@ fn replace_content(
 	range: Range<u64>,
 	replacement: Vec<u8>,
 ) -> Result<(), FileEncodingError> {
+	// An atom may be lying about its length
+	if range.end > writer.start_write().len() as u64 {
+		return Err(SizeMismatchError.into());
+	}
+
 	let difference = replacement.len() as i64 - (range.end - range.start) as i64;
 
 	if difference != 0 {
-- 
2.43.0


From a296018b7b0e62fe0b781a956a5cf4e1afe4a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 035/113] fix: Don't treat failing readers as the end of an Ogg
 stream

---
 ogg_pager/src/packets.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ogg_pager/src/packets.rs b/ogg_pager/src/packets.rs
index 182e0a2..43db05a 100644
--- a/ogg_pager/src/packets.rs
+++ b/ogg_pager/src/packets.rs
@@ -4,7 +4,7 @@ use crate::header::PageHeader;
 use crate::paginate::paginate;
 
 use std::fmt::{Debug, Formatter};
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 use std::ops::Range;
 
 /// A container for packets in an OGG file
@@ -84,7 +84,16 @@ impl Packets {
 		let mut packet_size = 0_u64;
 		let mut packet_bytes_already_read = None;
 		let mut current_packet_content;
-		'outer: while let Ok(header) = PageHeader::read(data) {
+		'outer: loop {
+			let header = match PageHeader::read(data) {
+				Ok(header) => header,
+				// Only the reader failing is an error, otherwise there are just no more pages
+				Err(PageError::Io(e)) if e.kind() != ErrorKind::UnexpectedEof => {
+					return Err(PageError::Io(e));
+				},
+				Err(_) => break,
+			};
+
 			for i in header.segments {
 				packet_size += u64::from(i);
 
-- 
2.43.0


From 170e348a91b81ec3606f5495e064855c14510674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 036/113] fix: Report I/O errors that parsing carried on from

---
 lofty/src/flac/mod.rs        |  15 +++-
 lofty/src/tag/tag_ext.rs     |  36 +++++---
 lofty/src/tag/tag_type.rs    |  16 ++--
 lofty/src/util/io.rs         | 159 +++++++++++++++++++++--------------
 lofty_attr/src/lofty_file.rs |   4 +-
 5 files changed, 146 insertions(+), 84 deletions(-)

diff --git a/lofty/src/flac/mod.rs b/lofty/src/flac/mod.rs
index aa01b3d..7507ca7 100644
--- a/lofty/src/flac/mod.rs
+++ b/lofty/src/flac/mod.rs
@@ -14,7 +14,7 @@ use crate::config::WriteOptions;
 use crate::error::FileEncodingError;
 use crate::file::{FileType, TaggedFile};
 use crate::id3::v2::tag::Id3v2Tag;
-use crate::io::VerifiedFile;
+use crate::io::{FaultLatch, VerifiedFile};
 use crate::ogg::OggPictureStorage;
 use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::picture::{Picture, PictureInformation};
@@ -71,6 +71,19 @@ impl FlacFile {
 			file.rewind()?;
 		}
 
+		let mut file = FaultLatch::new(file);
+		let result = self.write_vorbis_comments(&mut file, write_options);
+		file.finish(result)
+	}
+
+	fn write_vorbis_comments<F>(
+		&self,
+		file: &mut F,
+		write_options: WriteOptions,
+	) -> Result<(), FileEncodingError>
+	where
+		F: FileLike,
+	{
 		let file = VerifiedFile::new(file)?;
 
 		// We have an existing vorbis comments tag, we can just append our pictures to it
diff --git a/lofty/src/tag/tag_ext.rs b/lofty/src/tag/tag_ext.rs
index f81c157..b94d05f 100644
--- a/lofty/src/tag/tag_ext.rs
+++ b/lofty/src/tag/tag_ext.rs
@@ -1,6 +1,6 @@
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError, UnsupportedTagError};
-use crate::io::{FileLike, VerifiedFile};
+use crate::io::{FaultLatch, FileLike, VerifiedFile};
 use crate::tag::{Accessor, Tag, TagType};
 
 use std::path::Path;
@@ -105,16 +105,9 @@ pub trait TagExt: Accessor + TagWriteExt + Into<Tag> + Sized + private::Sealed {
 	where
 		F: FileLike,
 	{
-		let file = VerifiedFile::new(file)?;
-
-		// Empty tag writes are allowed for read-only formats, since they'll be stripped
-		let support = file.format().tag_support(self.tag_type());
-		if !support.is_writable() && !(support.is_readable() && self.is_empty()) {
-			return Err(FileEncodingError::from(UnsupportedTagError).with_format(file.format()));
-		}
-
-		let format = file.format();
-		<Self as TagWriteExt>::save_to(self, file, write_options).map_err(|e| e.with_format(format))
+		let mut file = FaultLatch::new(file);
+		let result = save_to_verified(self, &mut file, write_options);
+		file.finish(result)
 	}
 
 	#[allow(clippy::missing_errors_doc)]
@@ -196,3 +189,24 @@ mod private {
 	impl Sealed for Tag {}
 	impl Sealed for VorbisComments {}
 }
+
+fn save_to_verified<T, F>(
+	tag: &T,
+	file: &mut F,
+	write_options: WriteOptions,
+) -> std::result::Result<(), FileEncodingError>
+where
+	T: TagExt,
+	F: FileLike,
+{
+	let file = VerifiedFile::new(file)?;
+
+	// Empty tag writes are allowed for read-only formats, since they'll be stripped
+	let support = file.format().tag_support(tag.tag_type());
+	if !support.is_writable() && !(support.is_readable() && tag.is_empty()) {
+		return Err(FileEncodingError::from(UnsupportedTagError).with_format(file.format()));
+	}
+
+	let format = file.format();
+	TagWriteExt::save_to(tag, file, write_options).map_err(|e| e.with_format(format))
+}
diff --git a/lofty/src/tag/tag_type.rs b/lofty/src/tag/tag_type.rs
index 993c6d5..918bc21 100644
--- a/lofty/src/tag/tag_type.rs
+++ b/lofty/src/tag/tag_type.rs
@@ -1,8 +1,9 @@
 use super::{Tag, utils};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, UnsupportedTagError};
-use crate::io::{FileLike, VerifiedFile};
+use crate::io::{FaultLatch, FileLike, VerifiedFile};
 
+use std::fs::OpenOptions;
 use std::path::Path;
 
 /// Describes how a [`TagType`] is supported in a given [`FileType`]
@@ -128,8 +129,8 @@ impl TagType {
 		path: impl AsRef<Path>,
 		write_options: WriteOptions,
 	) -> Result<(), FileEncodingError> {
-		let file = VerifiedFile::new_from_path(path.as_ref())?;
-		self.do_remove(file, write_options)
+		let mut file = OpenOptions::new().read(true).write(true).open(path)?;
+		self.remove_from(&mut file, write_options)
 	}
 
 	#[allow(clippy::shadow_unrelated)]
@@ -148,18 +149,21 @@ impl TagType {
 	where
 		F: FileLike,
 	{
-		let file = VerifiedFile::new(file)?;
-		self.do_remove(file, write_options)
+		let mut file = FaultLatch::new(file);
+		let result = self.do_remove(&mut file, write_options);
+		file.finish(result)
 	}
 
 	fn do_remove<F>(
 		self,
-		file: VerifiedFile<'_, F>,
+		file: &mut F,
 		write_options: WriteOptions,
 	) -> Result<(), FileEncodingError>
 	where
 		F: FileLike,
 	{
+		let file = VerifiedFile::new(file)?;
+
 		// Read-only tags are always removable
 		if !file.format().tag_support(self).is_readable() {
 			return Err(UnsupportedTagError.into());
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 07d7e97..2edad57 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -5,11 +5,11 @@ use crate::util::math::F80;
 
 use crate::file::FileType;
 use crate::probe::Probe;
+use std::cell::RefCell;
 use std::collections::VecDeque;
-use std::fs::{File, OpenOptions};
-use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};
+use std::fs::File;
+use std::io::{Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
 use std::ops::{Deref, DerefMut};
-use std::path::Path;
 
 // TODO: https://github.com/rust-lang/rust/issues/59359
 pub(crate) trait SeekStreamLen: Seek {
@@ -180,62 +180,109 @@ where
 	}
 }
 
-pub(crate) enum FileSource<'a, F> {
-	/// Sourced from an already open file handle
-	Ref(&'a mut F),
-	/// Sourced from a path
-	Path(File),
-}
+/// A wrapper that remembers when the underlying reader fails
+///
+/// Parsers may carry on after an error, since bad data inside of a file doesn't necessarily make the entire
+/// file unreadable. An actual I/O error would be ignored along with it, leaving an incomplete result.
+///
+/// With this, such an error can be reported once the operation is finished. In the meantime, nothing
+/// is written to the file anymore.
+#[doc(hidden)]
+pub struct FaultLatch<'a, T: ?Sized> {
+	inner: &'a mut T,
+	fault: RefCell<Option<std::io::Error>>,
+}
+
+impl<'a, T: ?Sized> FaultLatch<'a, T> {
+	pub fn new(inner: &'a mut T) -> Self {
+		Self {
+			inner,
+			fault: RefCell::new(None),
+		}
+	}
 
-impl<F: FileLike> Length for FileSource<'_, F> {
-	fn len(&self) -> std::io::Result<u64> {
-		match self {
-			Self::Ref(file) => Length::len(file),
-			Self::Path(file) => Length::len(file),
+	/// Consume the latch, failing if there was an error that went unnoticed
+	///
+	/// # Errors
+	///
+	/// * `result` is an error
+	/// * The underlying reader failed
+	pub fn finish<V, E>(self, result: std::result::Result<V, E>) -> std::result::Result<V, E>
+	where
+		E: From<std::io::Error>,
+	{
+		match self.fault.into_inner() {
+			Some(fault) if result.is_ok() => Err(fault.into()),
+			_ => result,
 		}
 	}
-}
 
-impl<F: FileLike> Truncate for FileSource<'_, F> {
-	fn truncate(&mut self, size: u64) -> std::io::Result<()> {
-		match self {
-			Self::Ref(file) => Truncate::truncate(file, size),
-			Self::Path(file) => Truncate::truncate(file, size),
+	fn check<V>(&self, result: std::io::Result<V>) -> std::io::Result<V> {
+		if let Err(e) = &result {
+			match e.kind() {
+				// Retryable, or a result of invalid data (e.g. seeking to a negative position)
+				ErrorKind::Interrupted | ErrorKind::UnexpectedEof | ErrorKind::InvalidInput => {},
+				_ => *self.fault.borrow_mut() = Some(copy_io_error(e)),
+			}
+		}
+
+		result
+	}
+
+	fn verify_writable(&self) -> std::io::Result<()> {
+		match &*self.fault.borrow() {
+			Some(fault) => Err(copy_io_error(fault)),
+			None => Ok(()),
 		}
 	}
 }
 
-impl<F: FileLike> Read for FileSource<'_, F> {
+// `std::io::Error` isn't `Clone`
+fn copy_io_error(error: &std::io::Error) -> std::io::Error {
+	match error.raw_os_error() {
+		Some(code) => std::io::Error::from_raw_os_error(code),
+		None => std::io::Error::new(error.kind(), error.to_string()),
+	}
+}
+
+impl<T: Read + ?Sized> Read for FaultLatch<'_, T> {
 	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-		match self {
-			Self::Ref(file) => Read::read(file, buf),
-			Self::Path(file) => Read::read(file, buf),
-		}
+		let result = self.inner.read(buf);
+		self.check(result)
 	}
 }
 
-impl<F: FileLike> Write for FileSource<'_, F> {
+impl<T: Seek + ?Sized> Seek for FaultLatch<'_, T> {
+	fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+		let result = self.inner.seek(pos);
+		self.check(result)
+	}
+}
+
+impl<T: Write + ?Sized> Write for FaultLatch<'_, T> {
 	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-		match self {
-			Self::Ref(file) => Write::write(file, buf),
-			Self::Path(file) => Write::write(file, buf),
-		}
+		self.verify_writable()?;
+		let result = self.inner.write(buf);
+		self.check(result)
 	}
 
 	fn flush(&mut self) -> std::io::Result<()> {
-		match self {
-			Self::Ref(file) => Write::flush(file),
-			Self::Path(file) => Write::flush(file),
-		}
+		let result = self.inner.flush();
+		self.check(result)
 	}
 }
 
-impl<F: FileLike> Seek for FileSource<'_, F> {
-	fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
-		match self {
-			Self::Ref(file) => Seek::seek(file, pos),
-			Self::Path(file) => Seek::seek(file, pos),
-		}
+impl<T: Truncate + ?Sized> Truncate for FaultLatch<'_, T> {
+	fn truncate(&mut self, new_len: u64) -> std::io::Result<()> {
+		self.verify_writable()?;
+		let result = self.inner.truncate(new_len);
+		self.check(result)
+	}
+}
+
+impl<T: Length + ?Sized> Length for FaultLatch<'_, T> {
+	fn len(&self) -> std::io::Result<u64> {
+		self.check(self.inner.len())
 	}
 }
 
@@ -244,7 +291,7 @@ impl<F: FileLike> Seek for FileSource<'_, F> {
 /// Used for tag writes to prevent repeated format verification
 pub(crate) struct VerifiedFile<'a, F> {
 	format: FileType,
-	file: FileSource<'a, F>,
+	file: &'a mut F,
 }
 
 impl<'a, F: FileLike> VerifiedFile<'a, F> {
@@ -253,7 +300,7 @@ impl<'a, F: FileLike> VerifiedFile<'a, F> {
 		match probe.file_type() {
 			Some(format) => Ok(Self {
 				format,
-				file: FileSource::Ref(probe.into_inner()),
+				file: probe.into_inner(),
 			}),
 			None => Err(UnknownFormatError.into()),
 		}
@@ -263,40 +310,22 @@ impl<'a, F: FileLike> VerifiedFile<'a, F> {
 		self.format
 	}
 
-	pub(crate) fn into_inner(self) -> FileSource<'a, F> {
+	pub(crate) fn into_inner(self) -> &'a mut F {
 		self.file
 	}
 }
 
-impl VerifiedFile<'_, File> {
-	pub(crate) fn new_from_path(path: &Path) -> Result<Self, FileParseError> {
-		let mut file = OpenOptions::new().read(true).write(true).open(path)?;
-		let format = Probe::new(BufReader::new(&mut file))
-			.guess_file_type()?
-			.file_type();
-
-		file.rewind()?;
-		match format {
-			Some(format) => Ok(Self {
-				format,
-				file: FileSource::Path(file),
-			}),
-			None => Err(UnknownFormatError.into()),
-		}
-	}
-}
-
-impl<'a, F> Deref for VerifiedFile<'a, F> {
-	type Target = FileSource<'a, F>;
+impl<F> Deref for VerifiedFile<'_, F> {
+	type Target = F;
 
 	fn deref(&self) -> &Self::Target {
-		&self.file
+		self.file
 	}
 }
 
 impl<F> DerefMut for VerifiedFile<'_, F> {
 	fn deref_mut(&mut self) -> &mut Self::Target {
-		&mut self.file
+		self.file
 	}
 }
 
diff --git a/lofty_attr/src/lofty_file.rs b/lofty_attr/src/lofty_file.rs
index f72f127..90217d2 100644
--- a/lofty_attr/src/lofty_file.rs
+++ b/lofty_attr/src/lofty_file.rs
@@ -446,7 +446,9 @@ fn generate_audiofile_impl(file: &LoftyFile) -> syn::Result<proc_macro2::TokenSt
 			where
 				R: ::std::io::Read + ::std::io::Seek,
 			{
-				#read_fn(reader, parse_options).map_err(::core::convert::Into::into)
+				let mut reader = ::lofty::io::FaultLatch::new(reader);
+				let result = #read_fn(&mut reader, parse_options).map_err(::core::convert::Into::into);
+				reader.finish(result)
 			}
 
 			fn save_to<F>(&self, file: &mut F, write_options: ::lofty::config::WriteOptions) -> ::core::result::Result<(), ::lofty::error::FileEncodingError>
-- 
2.43.0


From 3ef1d8a52b3c788171020009da6b0ac59d8eef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 037/113] fix: Write the frames of a converted tag in a fixed
 order

---
 .../items/relative_volume_adjustment_frame.rs |  6 ++++-
 lofty/src/id3/v2/tag/conversion.rs            | 23 +++++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 38c4344..18d028a 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -238,7 +238,11 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 			write_options.lossy_text_encoding,
 		)?);
 
-		for (channel_type, info) in &*self.channels {
+		// The order must be the same every time
+		let mut channels: Vec<_> = self.channels.iter().collect();
+		channels.sort_unstable_by_key(|(channel_type, _)| **channel_type);
+
+		for (channel_type, info) in channels {
 			let mut bits_representing_peak = info.bits_representing_peak;
 			let expected_peak_byte_length = (u16::from(bits_representing_peak) + 7) >> 3;
 
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 093c693..25dacf5 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -24,7 +24,9 @@ use crate::tag::items::{Lang, Timestamp};
 use crate::util::flag_item;
 
 use std::borrow::Cow;
+use std::collections::hash_map::DefaultHasher;
 use std::collections::{HashMap, HashSet};
+use std::hash::BuildHasherDefault;
 use std::io::Write;
 use std::iter::Peekable;
 use std::str::FromStr;
@@ -350,21 +352,24 @@ pub(crate) fn from_tag<'a>(
 		}
 	}
 
+	// The order of the frames must be the same every time, as it is the order they get written in
+	type Hasher = BuildHasherDefault<DefaultHasher>;
+
 	struct GenericConversionContext<'a> {
 		tipl: KeyValueFrame<'a>,
 
 		// Mappings for text frames that can have multiple values. The values are `Cow`, since there
 		// will only be an allocation if there are multiple occurrences of a single item.
-		text_frames: HashMap<&'static str, Cow<'a, str>>,
-		txxx_frames: HashMap<&'static str, Cow<'a, str>>,
+		text_frames: HashMap<&'static str, Cow<'a, str>, Hasher>,
+		txxx_frames: HashMap<&'static str, Cow<'a, str>, Hasher>,
 
 		// Then frames with languages are special, as they need to be distinguished by both their description
 		// and their language.
 		//
 		// Like normal text frames, there will only be an allocation if there are multiple frames with
 		// the same language and description.
-		comments: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
-		unsync_text: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
+		comments: HashMap<LanguageAndDescription<'a>, Cow<'a, str>, Hasher>,
+		unsync_text: HashMap<LanguageAndDescription<'a>, Cow<'a, str>, Hasher>,
 
 		// Number frames need to be merged
 		track_number: Option<u32>,
@@ -385,17 +390,17 @@ pub(crate) fn from_tag<'a>(
 			TextEncoding::UTF8,
 			Vec::new(),
 		),
-		text_frames: HashMap::new(),
-		txxx_frames: HashMap::new(),
-		comments: HashMap::new(),
-		unsync_text: HashMap::new(),
+		text_frames: HashMap::default(),
+		txxx_frames: HashMap::default(),
+		comments: HashMap::default(),
+		unsync_text: HashMap::default(),
 		track_number: None,
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
 	};
 
-	let mut frames = HashSet::with_capacity(items.len());
+	let mut frames = HashSet::with_capacity_and_hasher(items.len(), Hasher::default());
 	for item in items {
 		if let Some(frame) = item_to_frame(&mut ctx, item) {
 			frames.insert(frame);
-- 
2.43.0


From f05e683493af5081594a7dbbfa1aeed298bebe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 038/113] fix: Don't lose unsynchronised data when a read is
 interrupted

---
 lofty/src/id3/v2/util/synchsafe.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/util/synchsafe.rs b/lofty/src/id3/v2/util/synchsafe.rs
index 27536ff..11668ee 100644
--- a/lofty/src/id3/v2/util/synchsafe.rs
+++ b/lofty/src/id3/v2/util/synchsafe.rs
@@ -2,7 +2,7 @@
 //!
 //! See [`FrameFlags::unsynchronisation`](crate::id3::v2::FrameFlags::unsynchronisation) for an explanation.
 
-use std::io::Read;
+use std::io::{ErrorKind, Read};
 
 /// A reader for unsynchronized content
 ///
@@ -111,7 +111,12 @@ impl<R: Read> Read for UnsynchronizedStream<R> {
 			}
 
 			if self.pos >= self.bytes_available {
-				self.bytes_available = self.reader.read(&mut self.buf)?;
+				self.bytes_available = match self.reader.read(&mut self.buf) {
+					Ok(bytes_available) => bytes_available,
+					// The bytes already written to `buf` would be lost
+					Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+					Err(e) => return Err(e),
+				};
 				self.pos = 0;
 			}
 
-- 
2.43.0


From 5a9557a746cbde6c6a4932770e43b54687038e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 039/113] fix: list the wave extension in EXTENSIONS

---
 lofty/src/file/file_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 8cdbfd2..c2f6ff0 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -39,8 +39,8 @@ use std::path::Path;
 /// ```
 pub const EXTENSIONS: &[&str] = &[
 	// Also update `FileType::from_ext()` below
-	"aac", "ape", "aiff", "aif", "afc", "aifc", "mp3", "mp2", "mp1", "wav", "wv", "opus", "flac",
-	"ogg", "mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp", "mpc", "mp+", "mpp", "spx",
+	"aac", "ape", "aiff", "aif", "afc", "aifc", "mp3", "mp2", "mp1", "wav", "wave", "wv", "opus",
+	"flac", "ogg", "mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp", "mpc", "mp+", "mpp", "spx",
 ];
 
 /// The type of file read
-- 
2.43.0


From 4f79aff69103647b18c9109bb5d5942a7c0cf448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 040/113] fix: Don't count Opus header pages as audio

---
 lofty/src/ogg/opus/properties.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index 289664d..785856c 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -132,6 +132,9 @@ where
 	properties.channel_mask =
 		ChannelMask::from_opus_channels(properties.channels).unwrap_or_default();
 
+	// The audio follows the pages of the header packets
+	let audio_start = data.stream_position()?;
+
 	let last_page = find_last_page(data);
 	let file_length = data.seek(SeekFrom::End(0))?;
 
@@ -150,13 +153,8 @@ where
 			// Best case scenario
 			let length = (u128::from(total_samples) * 1000).div_round(48000) as u64;
 
-			// Get the stream length by subtracting the length of the header packets
-
-			// Safe to unwrap, metadata is checked prior
-			let metadata_packet = packets.get(1).unwrap();
-			let header_size = identification_packet.len() + metadata_packet.len();
-
-			let stream_len = file_length.saturating_sub(header_size as u64);
+			// Get the stream length by subtracting the length of the header pages
+			let stream_len = file_length.saturating_sub(audio_start);
 
 			properties.duration = Duration::from_millis(length);
 			if length > 0 {
-- 
2.43.0


From 4771cc4226673d6c099fdb65d58ce18180bada05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 041/113] fix: Read encrypted ID3v2 frames that are
 unsynchronised

---
 lofty/src/id3/v2/frame/read.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 1cede12..d072237 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -273,8 +273,21 @@ fn handle_encryption<R: Read>(
 		return Err(FrameParseError::missing_data_length_indicator(id));
 	}
 
-	let mut content = try_vec![0; size as usize]?;
-	if let Err(e) = reader.read_exact(&mut content) {
+	let mut content;
+	let read_result;
+	if flags.unsynchronisation {
+		// The content is smaller than `size`, depending on how many bytes were unsynchronised
+		content = Vec::new();
+		read_result = reader
+			.take(u64::from(size))
+			.read_to_end(&mut content)
+			.map(drop);
+	} else {
+		content = try_vec![0; size as usize]?;
+		read_result = reader.read_exact(&mut content);
+	}
+
+	if let Err(e) = read_result {
 		return Err(FrameParseError::io(Some(id), e));
 	}
 
-- 
2.43.0


From 905d32b9704ac8c91b5c49f0fdbb89def80c5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 042/113] fix: Resume ID3v2.3 unsynchronisation after the
 extended header

---
 lofty/src/id3/v2/header.rs         | 16 +++++++++++-----
 lofty/src/id3/v2/read.rs           |  3 ++-
 lofty/src/id3/v2/util/synchsafe.rs |  8 ++++++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 9402f4e..ac831bf 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -99,6 +99,8 @@ pub(crate) struct Id3v2Header {
 	pub size: u32,
 	/// The number of bytes in the tag contents that belong to the extended header
 	pub extended_size: u32,
+	/// Whether the unsynchronised content continues after a `0xFF` in the extended header
+	pub extended_ends_in_ff: bool,
 }
 
 impl Id3v2Header {
@@ -146,12 +148,14 @@ impl Id3v2Header {
 
 		let size = BigEndian::read_u32(&header[6..]).unsynch();
 		let mut extended_size = 0;
+		let mut extended_ends_in_ff = false;
 
 		let extended_header =
 			(version == Id3v2Version::V4 || version == Id3v2Version::V3) && flags & 0x40 == 0x40;
 
 		if extended_header {
-			extended_size = read_extended_header(bytes, version, &mut flags_parsed, size)?;
+			(extended_size, extended_ends_in_ff) =
+				read_extended_header(bytes, version, &mut flags_parsed, size)?;
 		}
 
 		Ok(Id3v2Header {
@@ -159,6 +163,7 @@ impl Id3v2Header {
 			flags: flags_parsed,
 			size,
 			extended_size,
+			extended_ends_in_ff,
 		})
 	}
 
@@ -168,13 +173,14 @@ impl Id3v2Header {
 	}
 }
 
-/// Reads the extended header, returning the number of bytes it occupies in the tag
+/// Reads the extended header, returning the number of bytes it occupies in the tag, and whether
+/// it ends in an unsynchronised `0xFF`
 fn read_extended_header<R: Read>(
 	reader: &mut R,
 	version: Id3v2Version,
 	flags: &mut Id3v2TagFlags,
 	tag_size: u32,
-) -> Result<u32, Id3v2ParseError> {
+) -> Result<(u32, bool), Id3v2ParseError> {
 	// In ID3v2.3, the extended header is considered separate from the frame header, and
 	// thus subject to unsynchronization. In ID3v2.4, no flags apply to it.
 	let unsynchronised = version == Id3v2Version::V3 && flags.unsynchronisation;
@@ -222,7 +228,7 @@ fn read_extended_header<R: Read>(
 
 	if version == Id3v2Version::V3 {
 		flags.crc = content[0] & 0x80 == 0x80;
-		return Ok(bytes_read);
+		return Ok((bytes_read, unsynchronised && last_byte == 0xFF));
 	}
 
 	// The first byte is useless, since there's only 1 byte for flags
@@ -253,5 +259,5 @@ fn read_extended_header<R: Read>(
 		}
 	}
 
-	Ok(bytes_read)
+	Ok((bytes_read, false))
 }
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index a1facba..0edbd37 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -33,7 +33,8 @@ where
 	let mut ret;
 	if header.flags.unsynchronisation && header.version < Id3v2Version::V4 {
 		// Unsynchronize the entire tag
-		let mut unsynchronized_reader = UnsynchronizedStream::new(tag_bytes);
+		let mut unsynchronized_reader =
+			UnsynchronizedStream::resume(tag_bytes, header.extended_ends_in_ff);
 		ret = read_all_frames_into_tag(&mut unsynchronized_reader, header, parse_options)?;
 
 		// Get the `Take` back from the `UnsynchronizedStream`
diff --git a/lofty/src/id3/v2/util/synchsafe.rs b/lofty/src/id3/v2/util/synchsafe.rs
index 11668ee..48caa3a 100644
--- a/lofty/src/id3/v2/util/synchsafe.rs
+++ b/lofty/src/id3/v2/util/synchsafe.rs
@@ -58,6 +58,14 @@ impl<R> UnsynchronizedStream<R> {
 		}
 	}
 
+	/// Create a new [`UnsynchronizedStream`], continuing content that was read up to a `0xFF`
+	pub(crate) fn resume(reader: R, encountered_ff: bool) -> Self {
+		Self {
+			encountered_ff,
+			..Self::new(reader)
+		}
+	}
+
 	/// Extract the reader, discarding the [`UnsynchronizedStream`]
 	///
 	/// # Examples
-- 
2.43.0


From 3e0016e5d242063db040be42b95a56824ed9bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 043/113] fix: Remove imports left unused by earlier fixes

---
 lofty/src/flac/write.rs              | 2 +-
 lofty/src/id3/v1/write.rs            | 2 +-
 lofty/src/id3/v2/write/chunk_file.rs | 4 ++--
 lofty/src/id3/v2/write/mod.rs        | 2 +-
 lofty/src/iff/aiff/tag/mod.rs        | 4 ++--
 lofty/src/iff/wav/tag/write.rs       | 4 ++--
 lofty/src/ogg/tag/write.rs           | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 100bf24..394f81d 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -11,7 +11,7 @@ use crate::tag::{Tag, TagType};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
-use std::io::{ErrorKind, Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, SeekFrom};
 use std::iter::Peekable;
 use std::ops::Range;
 
diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 66bd2ff..35dfe76 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -4,7 +4,7 @@ use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError, TagParseError};
 use crate::id3::v1::error::Id3v1EncodingError;
 use crate::id3::{ID3FindResults, find_id3v1};
-use crate::io::{Length, Truncate, VerifiedFile};
+use crate::io::{Length, VerifiedFile};
 use crate::util::io::FileLike;
 use crate::util::text::latin1_encode;
 
diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index e2b9ee6..f690770 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -6,11 +6,11 @@ use crate::error::{
 use crate::file::FileType;
 use crate::iff::chunk::{Chunks, IFF_CHUNK_HEADER_SIZE};
 use crate::iff::error::ChunkParseError;
-use crate::io::{Length, Truncate, VerifiedFile};
+use crate::io::{Length, VerifiedFile};
 use crate::tag::TagType;
 use crate::util::io::FileLike;
 
-use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::io::{Cursor, Seek, SeekFrom, Write};
 use std::ops::Range;
 
 use byteorder::{ByteOrder, WriteBytesExt};
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 1bca533..d4624de 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -9,7 +9,7 @@ use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v2};
-use crate::io::{Truncate, VerifiedFile};
+use crate::io::VerifiedFile;
 use crate::macros::try_vec;
 use crate::mpeg::read::find_next_frame;
 use crate::util::io::FileLike;
diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 107794d..8ec4fc6 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -5,7 +5,7 @@ use crate::error::{FileEncodingError, FileParseError, TagEncodingError, TooMuchD
 use crate::iff::aiff::error::AiffParseError;
 use crate::iff::aiff::tag::error::AiffTextChunksEncodingError;
 use crate::iff::chunk::{Chunks, IFF_CHUNK_HEADER_SIZE};
-use crate::io::{Length, Truncate, VerifiedFile};
+use crate::io::{Length, VerifiedFile};
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
 };
@@ -15,7 +15,7 @@ use byteorder::{BigEndian, ReadBytesExt};
 use lofty_attr::tag;
 use std::borrow::Cow;
 use std::convert::TryFrom;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{SeekFrom, Write};
 use std::ops::Range;
 
 /// Represents an AIFF `COMT` chunk
diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index fcd7cfb..dba8015 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -8,11 +8,11 @@ use crate::iff::error::ChunkParseError;
 use crate::iff::wav::error::WavParseError;
 use crate::iff::wav::read::verify_wav;
 use crate::iff::wav::tag::error::RiffInfoListEncodingError;
-use crate::io::{Truncate, VerifiedFile};
+use crate::io::VerifiedFile;
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
-use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::io::{Cursor, Read, Seek, SeekFrom};
 use std::ops::Range;
 
 use byteorder::{LittleEndian, WriteBytesExt};
diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index 589b484..04a26a3 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -1,7 +1,7 @@
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, FileParseError, TagEncodingError, TooMuchDataError};
 use crate::file::FileType;
-use crate::io::{Truncate, VerifiedFile};
+use crate::io::VerifiedFile;
 use crate::macros::try_vec;
 use crate::ogg::constants::{OPUSTAGS, VORBIS_COMMENT_HEAD};
 use crate::ogg::tag::error::VorbisCommentsEncodingError;
-- 
2.43.0


From 11ecf8b66864101605c9aa37a8f3d0f6a151a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:41 +0000
Subject: [PATCH 044/113] fix: Treat a blank timestamp as absent

---
 lofty/src/tag/items/timestamp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/tag/items/timestamp.rs b/lofty/src/tag/items/timestamp.rs
index 910a173..2afcadc 100644
--- a/lofty/src/tag/items/timestamp.rs
+++ b/lofty/src/tag/items/timestamp.rs
@@ -221,7 +221,12 @@ impl Timestamp {
 
 		if parse_mode != ParsingMode::Strict {
 			while c.is_ascii_whitespace() {
-				c = reader.read_u8()?;
+				c = match reader.read_u8() {
+					Ok(val) => val,
+					// Nothing but whitespace
+					Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(None),
+					Err(e) => return Err(e.into()),
+				};
 			}
 		}
 
-- 
2.43.0


From 3a643640e6371bf0c5254a96348ec01270832c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 045/113] fix: Keep ID3v1 accessors within what the fields can
 hold

---
 lofty/src/id3/v1/tag.rs | 48 ++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/lofty/src/id3/v1/tag.rs b/lofty/src/id3/v1/tag.rs
index 4f773dc..7fe4c69 100644
--- a/lofty/src/id3/v1/tag.rs
+++ b/lofty/src/id3/v1/tag.rs
@@ -167,7 +167,10 @@ impl Accessor for Id3v1Tag {
 	}
 
 	fn set_track(&mut self, value: u32) {
-		self.track_number = Some(value as u8);
+		// A number that doesn't fit is ignored, like an unknown genre
+		if let Ok(track) = u8::try_from(value) {
+			self.track_number = Some(track);
+		}
 	}
 
 	fn remove_track(&mut self) {
@@ -179,16 +182,8 @@ impl Accessor for Id3v1Tag {
 	}
 
 	fn set_comment(&mut self, value: String) {
-		let mut resized = String::with_capacity(28);
-		for c in value.chars() {
-			if resized.len() + c.len_utf8() > 28 {
-				break;
-			}
-
-			resized.push(c);
-		}
-
-		self.comment = Some(resized);
+		// Each character is written as a single Latin-1 byte
+		self.comment = Some(value.chars().take(28).collect());
 	}
 
 	fn remove_comment(&mut self) {
@@ -361,19 +356,22 @@ impl From<Tag> for Id3v1Tag {
 				.get_string(ItemKey::TrackNumber)
 				.map(|g| g.parse::<u8>().ok())
 				.and_then(|g| g),
-			genre: input
-				.get_string(ItemKey::Genre)
-				.map(|g| {
-					GENRES
-						.iter()
-						.position(|v| v == &g)
-						.map_or_else(|| g.parse::<u8>().ok(), |p| Some(p as u8))
-				})
-				.and_then(|g| g),
+			genre: input.get_string(ItemKey::Genre).and_then(genre_index),
 		}
 	}
 }
 
+/// Finds the index of a genre given as its name, or as a valid index into [`GENRES`]
+fn genre_index(genre: &str) -> Option<u8> {
+	match GENRES.iter().position(|v| *v == genre) {
+		Some(pos) => Some(pos as u8),
+		None => genre
+			.parse::<u8>()
+			.ok()
+			.filter(|index| usize::from(*index) < GENRES.len()),
+	}
+}
+
 pub(crate) struct Id3v1TagRef<'a> {
 	pub title: Option<&'a str>,
 	pub artist: Option<&'a str>,
@@ -413,15 +411,7 @@ impl<'a> Into<Id3v1TagRef<'a>> for &'a Tag {
 				.get_string(ItemKey::TrackNumber)
 				.map(|g| g.parse::<u8>().ok())
 				.and_then(|g| g),
-			genre: self
-				.get_string(ItemKey::Genre)
-				.map(|g| {
-					GENRES
-						.iter()
-						.position(|v| v == &g)
-						.map_or_else(|| g.parse::<u8>().ok(), |p| Some(p as u8))
-				})
-				.and_then(|g| g),
+			genre: self.get_string(ItemKey::Genre).and_then(genre_index),
 		}
 	}
 }
-- 
2.43.0


From 8c8c6e031c516ee48ae3d002cf2be19663285ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 046/113] fix: Refuse nulls that would cut ID3v2 text short

---
 lofty/src/id3/v2/items/url_link_frame.rs | 18 +++++++++++++-----
 lofty/src/util/text.rs                   | 13 +++++++++++--
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/lofty/src/id3/v2/items/url_link_frame.rs b/lofty/src/id3/v2/items/url_link_frame.rs
index 3b0fc16..72329cb 100644
--- a/lofty/src/id3/v2/items/url_link_frame.rs
+++ b/lofty/src/id3/v2/items/url_link_frame.rs
@@ -2,7 +2,7 @@ use crate::config::WriteOptions;
 use crate::id3::v2::error::FrameParseError;
 use crate::id3::v2::frame::error::FrameEncodingError;
 use crate::id3::v2::{FrameFlags, FrameHeader, FrameId};
-use crate::util::text::{TextDecodeOptions, TextEncoding, decode_text};
+use crate::util::text::{TextDecodeOptions, TextEncoding, decode_text, trim_end_nulls_str};
 
 use std::borrow::Cow;
 use std::hash::Hash;
@@ -91,11 +91,19 @@ impl<'a> UrlLinkFrame<'a> {
 	///
 	/// # Errors
 	///
-	/// If [`WriteOptions::lossy_text_encoding()`] is disabled and the content cannot be Latin-1 encoded.
+	/// * [`WriteOptions::lossy_text_encoding()`] is disabled and the content cannot be Latin-1 encoded.
+	/// * The content contains a null, as it would end the URL
 	pub fn as_bytes(&self, write_options: WriteOptions) -> Result<Vec<u8>, FrameEncodingError> {
-		TextEncoding::Latin1
-			.encode(&self.content, false, write_options.lossy_text_encoding)
-			.map_err(Into::into)
+		let mut content = TextEncoding::Latin1.encode(
+			trim_end_nulls_str(&self.content),
+			true,
+			write_options.lossy_text_encoding,
+		)?;
+
+		// The terminator is optional
+		content.pop();
+
+		Ok(content)
 	}
 
 	/// Get the URL of the frame
diff --git a/lofty/src/util/text.rs b/lofty/src/util/text.rs
index c84d3d8..a8eb444 100644
--- a/lofty/src/util/text.rs
+++ b/lofty/src/util/text.rs
@@ -226,6 +226,15 @@ impl TextEncoding {
 		terminated: bool,
 		lossy: bool,
 	) -> Result<Vec<u8>, TextEncodingError> {
+		// The terminator is the only null that can appear in a terminated string, any other one
+		// would cut it short.
+		if terminated && let Some(valid_up_to) = text.find('\0') {
+			return Err(TextEncodingError {
+				encoding: self,
+				valid_up_to,
+			});
+		}
+
 		match self {
 			TextEncoding::Latin1 => {
 				let mut out = latin1_encode(text, lossy).collect::<Result<Vec<u8>, _>>()?;
@@ -432,7 +441,7 @@ pub(crate) fn latin1_encode(
 	s: &str,
 	lossy: bool,
 ) -> impl Iterator<Item = Result<u8, TextEncodingError>> {
-	s.chars().enumerate().map(move |(index, c)| {
+	s.char_indices().map(move |(index, c)| {
 		if (c as u32) <= 255 {
 			Ok(c as u8)
 		} else if lossy {
@@ -440,7 +449,7 @@ pub(crate) fn latin1_encode(
 		} else {
 			Err(TextEncodingError {
 				encoding: TextEncoding::Latin1,
-				valid_up_to: index, // All characters up to this point are single-byte
+				valid_up_to: index,
 			})
 		}
 	})
-- 
2.43.0


From 5aef9e73d94dd574c845d74eca7bdf98daff3993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 047/113] fix: Encode ID3v2 MIME types as Latin-1

---
 lofty/src/id3/v2/items/attached_picture_frame.rs | 10 ++++++----
 lofty/src/id3/v2/items/encapsulated_object.rs    | 10 +++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/lofty/src/id3/v2/items/attached_picture_frame.rs b/lofty/src/id3/v2/items/attached_picture_frame.rs
index 0f9ee88..69f988a 100644
--- a/lofty/src/id3/v2/items/attached_picture_frame.rs
+++ b/lofty/src/id3/v2/items/attached_picture_frame.rs
@@ -157,10 +157,12 @@ impl<'a> AttachedPictureFrame<'a> {
 
 		let mut data = vec![encoding as u8];
 
-		if let Some(mime_type) = &self.picture.mime_type {
-			data.write_all(mime_type.as_str().as_bytes())?;
-		}
-		data.write_u8(0)?;
+		let mime_type = self.picture.mime_type.as_ref().map_or("", MimeType::as_str);
+		data.write_all(&TextEncoding::Latin1.encode(
+			mime_type,
+			true,
+			write_options.lossy_text_encoding,
+		)?)?;
 
 		data.write_u8(self.picture.pic_type.as_u8())?;
 
diff --git a/lofty/src/id3/v2/items/encapsulated_object.rs b/lofty/src/id3/v2/items/encapsulated_object.rs
index 8e21167..69062b0 100644
--- a/lofty/src/id3/v2/items/encapsulated_object.rs
+++ b/lofty/src/id3/v2/items/encapsulated_object.rs
@@ -116,11 +116,11 @@ impl GeneralEncapsulatedObject<'_> {
 
 		let mut bytes = vec![encoding as u8];
 
-		if let Some(ref mime_type) = self.mime_type {
-			bytes.extend(mime_type.as_bytes())
-		}
-
-		bytes.push(0);
+		bytes.extend(TextEncoding::Latin1.encode(
+			self.mime_type.as_deref().unwrap_or(""),
+			true,
+			write_options.lossy_text_encoding,
+		)?);
 
 		let file_name = self.file_name.as_deref();
 		bytes.extend(&*encoding.encode(
-- 
2.43.0


From 2fac4985b44204d45d1ac673f91660f4118ae052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 048/113] fix: Don't write OWNE dates that aren't ASCII

---
 lofty/src/id3/v2/items/ownership_frame.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/ownership_frame.rs b/lofty/src/id3/v2/items/ownership_frame.rs
index 21f105d..e5913e7 100644
--- a/lofty/src/id3/v2/items/ownership_frame.rs
+++ b/lofty/src/id3/v2/items/ownership_frame.rs
@@ -152,7 +152,15 @@ impl<'a> OwnershipFrame<'a> {
 			));
 		}
 
-		bytes.extend(self.date_of_purchase.as_bytes().iter().take(8));
+		let date = &self.date_of_purchase.as_bytes()[..8];
+		if !date.is_ascii() {
+			return Err(FrameEncodingError::message(
+				Some(FRAME_ID),
+				"`date_of_purchase` field is not numeric text",
+			));
+		}
+
+		bytes.extend(date);
 		bytes.extend(encoding.encode(&self.seller, false, write_options.lossy_text_encoding)?);
 
 		Ok(bytes)
-- 
2.43.0


From 4d373fd6efc8e7e98979536b18d343cdf375e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 049/113] fix: Read UTF-16 comments and lyrics up to the end of
 the frame

---
 lofty/src/id3/v2/items/language_frame.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v2/items/language_frame.rs b/lofty/src/id3/v2/items/language_frame.rs
index 9d8d9e0..edcf0b5 100644
--- a/lofty/src/id3/v2/items/language_frame.rs
+++ b/lofty/src/id3/v2/items/language_frame.rs
@@ -6,8 +6,7 @@ use crate::id3::v2::header::Id3v2Version;
 use crate::id3::v2::{FrameFlags, FrameHeader, FrameId};
 use crate::tag::items::Lang;
 use crate::util::text::{
-	DecodeTextResult, TextDecodeOptions, TextEncoding, decode_text,
-	utf16_decode_terminated_maybe_bom,
+	DecodeTextResult, TextDecodeOptions, TextEncoding, decode_text, utf16_decode_bytes,
 };
 
 use std::borrow::Cow;
@@ -69,7 +68,15 @@ impl LanguageFrame {
 
 		let content;
 		if let Some(endianness) = endianness {
-			(content, _) = utf16_decode_terminated_maybe_bom(reader, endianness)?;
+			// Only the description is terminated, the content takes up the rest of the frame
+			let mut raw_text = Vec::new();
+			reader.read_to_end(&mut raw_text)?;
+
+			content = match &*raw_text {
+				[0xFF, 0xFE, ..] => utf16_decode_bytes(&raw_text, u16::from_le_bytes)?,
+				[0xFE, 0xFF, ..] => utf16_decode_bytes(&raw_text, u16::from_be_bytes)?,
+				_ => utf16_decode_bytes(&raw_text, endianness)?,
+			};
 		} else {
 			content = decode_text(reader, TextDecodeOptions::new().encoding(encoding))?.content;
 		}
-- 
2.43.0


From 0a45d27c6d2bb855fa0a95644ea136cc5e6f198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 050/113] fix: Separate the pairs of ID3v2.3 IPLS frames
 properly

---
 lofty/src/id3/v2/write/frame.rs | 55 +++++++++++++++++----------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 623e10e..c248bf7 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -5,6 +5,7 @@ use crate::id3::v2::tag::GenresIter;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 use crate::id3::v2::{Frame, FrameId, Id3v2Version, KeyValueFrame, TextInformationFrame};
 use crate::tag::items::Timestamp;
+use crate::util::text::TextEncoding;
 
 use std::borrow::Cow;
 use std::io::Write;
@@ -204,37 +205,23 @@ where
 					continue;
 				};
 
-				let ipls_frame;
+				// The pairs are only separable when each string is terminated
 				match ipls {
-					Some(ref mut frame) => {
-						ipls_frame = frame;
+					Some((ref mut ipls_encoding, ref mut ipls_pairs)) => {
+						if *ipls_encoding != encoding.to_id3v23() {
+							*ipls_encoding = TextEncoding::UTF16;
+						}
+
+						Vec::extend(ipls_pairs, key_value_pairs.to_mut().drain(..));
 					},
 					None => {
-						ipls = Some(TextInformationFrame::new(
-							FrameId::Valid("IPLS".into()),
+						ipls = Some((
 							encoding.to_id3v23(),
-							String::new(),
+							std::mem::take(key_value_pairs).into_owned(),
 						));
-						ipls_frame = ipls.as_mut().unwrap();
 					},
 				}
 
-				for (key, value) in key_value_pairs.to_mut().drain(..) {
-					if !ipls_frame.value.is_empty() {
-						match &mut ipls_frame.value {
-							Cow::Owned(v) => v.push('\0'),
-							v => {
-								let mut new = String::from(&**v);
-								new.push('\0');
-
-								*v = Cow::Owned(new);
-							},
-						}
-					}
-
-					ipls_frame.value = Cow::Owned(format!("{}{key}\0{value}", ipls_frame.value));
-				}
-
 				continue;
 			},
 			_ => {},
@@ -253,11 +240,25 @@ where
 		)?;
 	}
 
-	if let Some(ipls) = ipls {
-		let frame = Frame::Text(ipls);
-		if let Some(value) = frame.as_bytes(&mut ctx)? {
-			write_frame(writer, IPLS_ID, frame.flags(), &value, write_options)?;
+	if let Some((encoding, pairs)) = ipls
+		&& !pairs.is_empty()
+	{
+		let ends_with_text = pairs.last().is_some_and(|(_, value)| !value.is_empty());
+
+		let frame = KeyValueFrame::new(FrameId::Valid(IPLS_ID.into()), encoding, pairs);
+		let mut value = frame.as_bytes(write_options)?;
+
+		// The terminator of the last string is optional, unless it's all there is
+		if ends_with_text {
+			let terminator_len = if encoding == TextEncoding::UTF16 {
+				2
+			} else {
+				1
+			};
+			value.truncate(value.len() - terminator_len);
 		}
+
+		write_frame(writer, IPLS_ID, frame.flags(), &value, write_options)?;
 	}
 
 	Ok(())
-- 
2.43.0


From 1ccab13366a3240eb44dd3e5bea37c5985be8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 051/113] fix: Convert generic tags before saving them

---
 lofty/src/ape/tag/mod.rs           | 37 +--------------------
 lofty/src/flac/write.rs            | 16 ++-------
 lofty/src/id3/v2/tag/conversion.rs | 52 ++----------------------------
 lofty/src/id3/v2/util/pairs.rs     | 10 +-----
 lofty/src/ogg/tag.rs               | 29 ++---------------
 lofty/src/ogg/tag/write.rs         | 14 ++------
 lofty/src/tag/utils.rs             | 36 ++++-----------------
 lofty_attr/src/internal.rs         | 20 ++++++------
 8 files changed, 30 insertions(+), 184 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index e4fc6f8..a020b0a 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -8,8 +8,7 @@ use crate::ape::tag::error::ApeTagEncodingError;
 use crate::ape::tag::item::{ApeItem, ApeItemRef};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
-use crate::id3::v2::util::pairs::{NUMBER_PAIR_KEYS, format_number_pair, set_number};
-use crate::tag::item::ItemValueRef;
+use crate::id3::v2::util::pairs::{format_number_pair, set_number};
 use crate::tag::items::Timestamp;
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
@@ -666,40 +665,6 @@ where
 	}
 }
 
-pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'_>> {
-	fn create_apeitemref_for_number_pair<'a>(
-		number: Option<&str>,
-		total: Option<&str>,
-		key: &'a str,
-	) -> Option<ApeItemRef<'a>> {
-		format_number_pair(number, total).map(|value| ApeItemRef {
-			read_only: false,
-			key,
-			value: ItemValueRef::Text(Cow::Owned(value)),
-		})
-	}
-
-	tag.items()
-		.filter(|item| !NUMBER_PAIR_KEYS.contains(&item.key()))
-		.filter_map(|i| {
-			i.key().map_key(TagType::Ape).map(|key| ApeItemRef {
-				read_only: false,
-				key,
-				value: (&i.item_value).into(),
-			})
-		})
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::TrackNumber),
-			tag.get_string(ItemKey::TrackTotal),
-			"Track",
-		))
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::DiscNumber),
-			tag.get_string(ItemKey::DiscTotal),
-			"Disc",
-		))
-}
-
 #[cfg(test)]
 mod tests {
 	use crate::ape::{ApeItem, ApeTag};
diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 394f81d..a97417c 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -5,9 +5,9 @@ use crate::error::{FileEncodingError, FileParseError, SizeMismatchError, TagPars
 use crate::id3::{FindId3v2Config, find_id3v2};
 use crate::io::{Length, VerifiedFile};
 use crate::macros::try_vec;
-use crate::ogg::tag::VorbisCommentsRef;
+use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::{Tag, TagType};
+use crate::tag::{Tag, TagType, TagWriteExt};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -26,17 +26,7 @@ where
 	F: FileLike,
 {
 	match tag.tag_type() {
-		TagType::VorbisComments => {
-			let (vendor, items, pictures) = crate::ogg::tag::create_vorbis_comments_ref(tag);
-
-			let mut comments_ref = VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			};
-
-			write_to_inner(file, &mut comments_ref, write_options)
-		},
+		TagType::VorbisComments => VorbisComments::from(tag.clone()).save_to(file, write_options),
 		// This tag can *only* be removed in this format
 		TagType::Id3v2 => {
 			crate::id3::v2::tag::conversion::Id3v2TagRef::empty().write_to(file, write_options)
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 25dacf5..ec70a6f 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -4,13 +4,12 @@ use crate::error::FileEncodingError;
 use crate::id3::v2::frame::MUSICBRAINZ_UFID_OWNER;
 use crate::id3::v2::util::pairs::new_number_pair_frame;
 use crate::id3::v2::{
-	AttachedPictureFrame, CommentFrame, Frame, FrameId, Id3v2TagFlags, KeyValueFrame,
-	PopularimeterFrame, UniqueFileIdentifierFrame, UnsynchronizedTextFrame, write,
+	CommentFrame, Frame, FrameId, Id3v2TagFlags, KeyValueFrame, PopularimeterFrame,
+	UniqueFileIdentifierFrame, UnsynchronizedTextFrame, write,
 };
 use crate::io::{FileLike, VerifiedFile};
 use crate::prelude::ItemKey;
-use crate::tag::companion_tag::CompanionTag;
-use crate::tag::{Tag, TagItem, TagType};
+use crate::tag::{TagItem, TagType};
 
 use super::V4_MULTI_VALUE_SEPARATOR;
 use crate::id3::v2::error::Id3v2EncodingError;
@@ -454,51 +453,6 @@ pub(crate) fn from_tag<'a>(
 	frames
 }
 
-// Create an iterator of FrameRef from a Tag's items for Id3v2TagRef::new
-pub(crate) fn tag_frames(tag: &Tag) -> impl Iterator<Item = Frame<'_>> {
-	#[derive(Clone)]
-	enum CompanionTagIter<F, E> {
-		Filled(F),
-		Empty(E),
-	}
-
-	impl<'a, I> Iterator for CompanionTagIter<I, std::iter::Empty<Frame<'_>>>
-	where
-		I: Iterator<Item = Frame<'a>>,
-	{
-		type Item = Frame<'a>;
-
-		fn next(&mut self) -> Option<Self::Item> {
-			match self {
-				CompanionTagIter::Filled(iter) => iter.next(),
-				CompanionTagIter::Empty(_) => None,
-			}
-		}
-	}
-
-	fn create_framerefs_for_companion_tag(
-		companion: Option<&CompanionTag>,
-	) -> impl IntoIterator<Item = Frame<'_>> + Clone {
-		match companion {
-			Some(CompanionTag::Id3v2(companion)) => {
-				CompanionTagIter::Filled(companion.frames.iter().map(Frame::borrow))
-			},
-			_ => CompanionTagIter::Empty(std::iter::empty()),
-		}
-	}
-
-	let items = from_tag(tag.items().map(Cow::Borrowed)).into_iter().chain(
-		create_framerefs_for_companion_tag(tag.companion_tag.as_ref()),
-	);
-
-	let pictures = tag
-		.pictures()
-		.iter()
-		.map(|p| Frame::Picture(AttachedPictureFrame::new(TextEncoding::UTF8, p)));
-
-	items.chain(pictures)
-}
-
 impl<'a, I: Iterator<Item = Frame<'a>> + 'a> Id3v2TagRef<'a, I> {
 	pub(crate) fn write_to<F>(
 		&mut self,
diff --git a/lofty/src/id3/v2/util/pairs.rs b/lofty/src/id3/v2/util/pairs.rs
index 2fb9e0b..e5cb7c9 100644
--- a/lofty/src/id3/v2/util/pairs.rs
+++ b/lofty/src/id3/v2/util/pairs.rs
@@ -1,7 +1,7 @@
 //! Contains utilities for ID3v2 style number pairs
 
 use crate::id3::v2::{Frame, FrameId};
-use crate::tag::{ItemKey, TagItem};
+use crate::tag::TagItem;
 
 use crate::id3::v2::tag::new_text_frame;
 use std::fmt::Display;
@@ -11,14 +11,6 @@ pub(crate) const NUMBER_PAIR_SEPARATOR: char = '/';
 // This is used as the default number of track and disk.
 pub(crate) const DEFAULT_NUMBER_IN_PAIR: u32 = 0;
 
-// These keys have the part of the number pair.
-pub(crate) const NUMBER_PAIR_KEYS: &[ItemKey] = &[
-	ItemKey::TrackNumber,
-	ItemKey::TrackTotal,
-	ItemKey::DiscNumber,
-	ItemKey::DiscTotal,
-];
-
 pub(crate) fn new_number_pair_frame<N, T>(
 	id: FrameId<'_>,
 	number: Option<N>,
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b20e1c7..dc738cb 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -667,9 +667,8 @@ impl MergeTag for SplitTagRemainder {
 		}
 
 		for picture in tag.pictures {
-			if let Ok(information) = PictureInformation::from_picture(&picture) {
-				merged.pictures.push((picture, information))
-			}
+			let information = PictureInformation::from_picture(&picture).unwrap_or_default();
+			merged.pictures.push((picture, information))
 		}
 
 		merged
@@ -730,30 +729,6 @@ where
 	}
 }
 
-pub(crate) fn create_vorbis_comments_ref(
-	tag: &Tag,
-) -> (
-	&str,
-	impl Iterator<Item = (&str, &str)>,
-	impl Iterator<Item = (&Picture, PictureInformation)>,
-) {
-	let vendor = tag.get_string(ItemKey::EncoderSoftware).unwrap_or("");
-
-	let items = tag.items.iter().filter_map(|i| match i.value() {
-		ItemValue::Text(val) | ItemValue::Locator(val) => i
-			.key()
-			.map_key(TagType::VorbisComments)
-			.map(|key| (key, val.as_str())),
-		_ => None,
-	});
-
-	let pictures = tag
-		.pictures
-		.iter()
-		.map(|p| (p, PictureInformation::from_picture(p).unwrap_or_default()));
-	(vendor, items, pictures)
-}
-
 #[cfg(test)]
 mod tests {
 	use crate::config::{ParseOptions, ParsingMode, WriteOptions};
diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index 04a26a3..b53a812 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -5,10 +5,10 @@ use crate::io::VerifiedFile;
 use crate::macros::try_vec;
 use crate::ogg::constants::{OPUSTAGS, VORBIS_COMMENT_HEAD};
 use crate::ogg::tag::error::VorbisCommentsEncodingError;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
+use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::ogg::verify_signature;
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::Tag;
+use crate::tag::{Tag, TagWriteExt};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -25,15 +25,7 @@ pub(crate) fn write_to<F>(
 where
 	F: FileLike,
 {
-	let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
-
-	let mut comments_ref = VorbisCommentsRef {
-		vendor: Cow::from(vendor),
-		items,
-		pictures,
-	};
-
-	write(file, &mut comments_ref, write_options)
+	VorbisComments::from(tag.clone()).save_to(file, write_options)
 }
 
 pub(in crate::ogg) fn write<'a, F, II, IP>(
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 1085919..0d57f41 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -2,19 +2,17 @@ use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::file::FileType;
 use crate::id3::v1::tag::Id3v1TagRef;
-use crate::id3::v2::tag::conversion::Id3v2TagRef;
-use crate::id3::v2::{self, Id3v2TagFlags};
+use crate::id3::v2::Id3v2Tag;
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
-use crate::tag::{Tag, TagType};
+use crate::ogg::tag::VorbisComments;
+use crate::tag::{Tag, TagExt, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
-use ape::tag::ApeTagRef;
+use ape::ApeTag;
 use iff::aiff::tag::AiffTextChunksRef;
 use iff::wav::tag::RIFFInfoListRef;
 
-use std::borrow::Cow;
 use std::io::Write;
 
 #[allow(unreachable_patterns)]
@@ -54,36 +52,16 @@ pub(crate) fn dump_tag<W: Write>(
 	write_options: WriteOptions,
 ) -> Result<(), TagEncodingError> {
 	match tag.tag_type() {
-		TagType::Ape => ApeTagRef {
-			read_only: false,
-			items: ape::tag::tagitems_into_ape(tag),
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+		TagType::Ape => ApeTag::from(tag.clone()).dump_to(writer, write_options),
 		TagType::Id3v1 => Into::<Id3v1TagRef<'_>>::into(tag)
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
-		TagType::Id3v2 => Id3v2TagRef {
-			flags: Id3v2TagFlags::default(),
-			frames: v2::tag::conversion::tag_frames(tag).peekable(),
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+		TagType::Id3v2 => Id3v2Tag::from(tag.clone()).dump_to(writer, write_options),
 		TagType::Mp4Ilst => Into::<Ilst>::into(tag.clone())
 			.as_ref()
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
-		TagType::VorbisComments => {
-			let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
-
-			VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			}
-			.dump_to(writer, write_options)
-			.map_err(Into::into)
-		},
+		TagType::VorbisComments => VorbisComments::from(tag.clone()).dump_to(writer, write_options),
 		TagType::RiffInfo => RIFFInfoListRef {
 			items: iff::wav::tag::tagitems_into_riff(tag.items()),
 		}
diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index 996aba7..4ad8c1e 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -43,11 +43,11 @@ pub(crate) fn init_write_lookup(
 	}
 
 	insert!(map, Ape, {
-		lofty::ape::tag::ApeTagRef {
-			read_only: false,
-			items: lofty::ape::tag::tagitems_into_ape(tag),
-		}
-		.write_to(file, write_options)
+		lofty::tag::TagWriteExt::save_to(
+			&lofty::ape::ApeTag::from(tag.clone()),
+			file,
+			write_options,
+		)
 	});
 
 	insert!(map, Id3v1, {
@@ -60,11 +60,11 @@ pub(crate) fn init_write_lookup(
 		});
 	} else {
 		insert!(map, Id3v2, {
-			lofty::id3::v2::tag::conversion::Id3v2TagRef {
-				flags: lofty::id3::v2::Id3v2TagFlags::default(),
-				frames: lofty::id3::v2::tag::conversion::tag_frames(tag).peekable(),
-			}
-			.write_to(file, write_options)
+			lofty::tag::TagWriteExt::save_to(
+				&lofty::id3::v2::Id3v2Tag::from(tag.clone()),
+				file,
+				write_options,
+			)
 		});
 	}
 
-- 
2.43.0


From 8c5a64ea187efb1061b0d17a22785419486c342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 052/113] fix: Parse popularimeters with a separator in their
 email

---
 lofty/src/tag/items/popularimeter.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lofty/src/tag/items/popularimeter.rs b/lofty/src/tag/items/popularimeter.rs
index 4078afa..7088244 100644
--- a/lofty/src/tag/items/popularimeter.rs
+++ b/lofty/src/tag/items/popularimeter.rs
@@ -412,13 +412,14 @@ impl<'a> Popularimeter<'a> {
 	}
 
 	pub(crate) fn from_str(s: &str) -> Result<Self, ()> {
-		let mut parts = s.splitn(3, '|');
-		let email = parts.next().ok_or(())?;
-		let star_rating = parts.next().ok_or(())?;
+		// The email can contain any character, including the separator
+		let mut parts = s.rsplitn(3, '|');
 		let play_counter = parts
 			.next()
 			.ok_or(())
 			.and_then(|p| p.parse::<u64>().map_err(|_| ()))?;
+		let star_rating = parts.next().ok_or(())?;
+		let email = parts.next().ok_or(())?;
 
 		let star_rating = match star_rating.parse().map_err(|_| ())? {
 			1 => StarRating::One,
-- 
2.43.0


From 957f7261449bc4f8de019d2a8a99621395e7a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 053/113] fix: Convert Vorbis ratings without an email

---
 lofty/src/ogg/tag.rs | 66 +++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index dc738cb..00ee946 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -532,6 +532,12 @@ impl Deref for SplitTagRemainder {
 	}
 }
 
+/// Get the email of a rating field, which is empty if the rating doesn't belong to anyone
+fn rating_email(key: &str) -> Option<&str> {
+	let (name, email) = key.split_once(':').unwrap_or((key, ""));
+	name.eq_ignore_ascii_case("RATING").then_some(email)
+}
+
 impl SplitTag for VorbisComments {
 	type Remainder = SplitTagRemainder;
 
@@ -542,43 +548,35 @@ impl SplitTag for VorbisComments {
 		let mut tag = Tag::new(TagType::VorbisComments);
 
 		self.items.retain_mut(|(k, v)| {
-			let key;
-			match ItemKey::from_key(TagType::VorbisComments, k) {
-				Some(k) => key = k,
-				// Special case for ratings with associated emails (RATING:foo@example.com). Ratings
-				// without emails are handled by `ItemKey::from_key`.
-				None if k.starts_with("RATING:") => {
-					let Some((_, email)) = k.split_once(':') else {
-						return ITEM_RETAINED;
-					};
-
-					let Ok(value) = v.parse::<u8>() else {
-						log::warn!(
-							"Unable to parse popularimeter rating during tag split, retaining"
-						);
-						return ITEM_RETAINED;
-					};
-
-					// There is no play counter in Vorbis Comments
-					let play_counter = 0;
-					let Some(popm) =
+			// Special case for ratings, with or without associated emails (RATING:foo@example.com)
+			if let Some(email) = rating_email(k) {
+				// There is no play counter in Vorbis Comments
+				let play_counter = 0;
+				let popm = match v.parse::<u8>() {
+					Ok(value) => {
 						Popularimeter::mapped(email, TagType::VorbisComments, value, play_counter)
-					else {
-						log::warn!(
-							"Unable to find handler for popularimeter during tag split, retaining"
-						);
-						return ITEM_RETAINED;
-					};
-
-					tag.items.push(TagItem::new(
-						ItemKey::Popularimeter,
-						ItemValue::Text(popm.to_string()),
-					));
-					return ITEM_CONSUMED;
-				},
-				None => return ITEM_RETAINED,
+					},
+					// May already be in the generic form
+					Err(_) if email.is_empty() => Popularimeter::from_str(v).ok(),
+					Err(_) => None,
+				};
+
+				let Some(popm) = popm else {
+					log::warn!("Unable to convert popularimeter during tag split, retaining");
+					return ITEM_RETAINED;
+				};
+
+				tag.items.push(TagItem::new(
+					ItemKey::Popularimeter,
+					ItemValue::Text(popm.to_string()),
+				));
+				return ITEM_CONSUMED;
 			}
 
+			let Some(key) = ItemKey::from_key(TagType::VorbisComments, k) else {
+				return ITEM_RETAINED;
+			};
+
 			let v = std::mem::take(v);
 			tag.items.push(TagItem::new(key, ItemValue::Text(v)));
 
-- 
2.43.0


From f98793464a042e0a14054b7318a9a5c6d3aea17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 054/113] fix: Convert RIFF INFO ratings between their native
 and generic forms

---
 lofty/src/iff/wav/tag/mod.rs | 47 +++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 219cf9b..6fd41ea 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -232,7 +232,7 @@ impl TagExt for RiffInfoList {
 		RIFFInfoListRef::new(
 			self.items
 				.iter()
-				.map(|(k, v)| (k.as_str(), Cow::Borrowed(v.as_str()))),
+				.map(|(k, v)| (k.as_str(), item_value(k, v))),
 		)
 		.dump_to(writer, write_options)
 		.map_err(Into::into)
@@ -255,7 +255,7 @@ impl TagWriteExt for RiffInfoList {
 		RIFFInfoListRef::new(
 			self.items
 				.iter()
-				.map(|(k, v)| (k.as_str(), Cow::Borrowed(v.as_str()))),
+				.map(|(k, v)| (k.as_str(), item_value(k, v))),
 		)
 		.write_to(file, write_options)
 	}
@@ -289,10 +289,17 @@ impl From<RiffInfoList> for Tag {
 				continue;
 			};
 
-			tag.items.push(TagItem::new(
-				item_key,
-				ItemValue::Text(v.trim_matches('\0').to_string()),
-			));
+			let mut v = v.trim_matches('\0').to_string();
+
+			// Ratings are stored as numbers, without any email or play counter
+			if item_key == ItemKey::Popularimeter
+				&& let Ok(rating) = v.parse::<u8>()
+				&& let Some(popm) = Popularimeter::mapped("", TagType::RiffInfo, rating, 0)
+			{
+				v = popm.to_string();
+			}
+
+			tag.items.push(TagItem::new(item_key, ItemValue::Text(v)));
 		}
 
 		tag
@@ -355,6 +362,19 @@ where
 	}
 }
 
+/// Get the value of an item as it is stored in the file
+///
+/// Ratings in the generic form, which come from converted [`Tag`]s, are stored as numbers.
+fn item_value<'a>(key: &str, value: &'a str) -> Cow<'a, str> {
+	if ItemKey::from_key(TagType::RiffInfo, key) == Some(ItemKey::Popularimeter)
+		&& let Ok(popm) = Popularimeter::from_str(value)
+	{
+		return Cow::Owned(popm.mapped_value(TagType::RiffInfo).to_string());
+	}
+
+	Cow::Borrowed(value)
+}
+
 pub(crate) fn tagitems_into_riff<'a>(
 	items: impl IntoIterator<Item = &'a TagItem>,
 ) -> impl Iterator<Item = (&'a str, Cow<'a, str>)> {
@@ -366,19 +386,12 @@ pub(crate) fn tagitems_into_riff<'a>(
 		let key = i.key().map_key(TagType::RiffInfo)?;
 
 		// Special case for generic popularimeters
-		if i.key() == ItemKey::Popularimeter {
-			let Ok(popm) = Popularimeter::from_str(val) else {
-				log::warn!("Failed to parse popularimeter during tag merge, skipping");
-				return None;
-			};
-
-			return Some((
-				key,
-				Cow::Owned(popm.mapped_value(TagType::RiffInfo).to_string()),
-			));
+		if i.key() == ItemKey::Popularimeter && Popularimeter::from_str(val).is_err() {
+			log::warn!("Failed to parse popularimeter during tag merge, skipping");
+			return None;
 		}
 
-		Some((key, Cow::Borrowed(val.as_str())))
+		Some((key, item_value(key, val)))
 	})
 }
 
-- 
2.43.0


From 82588a6c32fb445a9c0bc953ac66128915fe92ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 055/113] fix: Save locators of generic tags to ID3v1 and AIFF
 text chunks alike

---
 lofty/src/id3/v1/tag.rs    | 20 --------------------
 lofty/src/tag/utils.rs     | 22 ++++------------------
 lofty_attr/src/internal.rs | 19 ++++++++++---------
 3 files changed, 14 insertions(+), 47 deletions(-)

diff --git a/lofty/src/id3/v1/tag.rs b/lofty/src/id3/v1/tag.rs
index 7fe4c69..6ec3853 100644
--- a/lofty/src/id3/v1/tag.rs
+++ b/lofty/src/id3/v1/tag.rs
@@ -396,26 +396,6 @@ impl<'a> Into<Id3v1TagRef<'a>> for &'a Id3v1Tag {
 	}
 }
 
-impl<'a> Into<Id3v1TagRef<'a>> for &'a Tag {
-	fn into(self) -> Id3v1TagRef<'a> {
-		Id3v1TagRef {
-			title: self.get_string(ItemKey::TrackTitle),
-			artist: self.get_string(ItemKey::TrackArtist),
-			album: self.get_string(ItemKey::AlbumTitle),
-			year: self
-				.get_string(ItemKey::Year)
-				.and_then(|year| year.parse().ok())
-				.or_else(|| self.date().map(|date| date.year)),
-			comment: self.get_string(ItemKey::Comment),
-			track_number: self
-				.get_string(ItemKey::TrackNumber)
-				.map(|g| g.parse::<u8>().ok())
-				.and_then(|g| g),
-			genre: self.get_string(ItemKey::Genre).and_then(genre_index),
-		}
-	}
-}
-
 impl Id3v1TagRef<'_> {
 	pub(super) fn is_empty(&self) -> bool {
 		self.title.is_none()
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 0d57f41..b7b8f33 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -1,7 +1,7 @@
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::file::FileType;
-use crate::id3::v1::tag::Id3v1TagRef;
+use crate::id3::v1::Id3v1Tag;
 use crate::id3::v2::Id3v2Tag;
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
@@ -10,7 +10,7 @@ use crate::tag::{Tag, TagExt, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
 use ape::ApeTag;
-use iff::aiff::tag::AiffTextChunksRef;
+use iff::aiff::AiffTextChunks;
 use iff::wav::tag::RIFFInfoListRef;
 
 use std::io::Write;
@@ -53,9 +53,7 @@ pub(crate) fn dump_tag<W: Write>(
 ) -> Result<(), TagEncodingError> {
 	match tag.tag_type() {
 		TagType::Ape => ApeTag::from(tag.clone()).dump_to(writer, write_options),
-		TagType::Id3v1 => Into::<Id3v1TagRef<'_>>::into(tag)
-			.dump_to(writer, write_options)
-			.map_err(Into::into),
+		TagType::Id3v1 => Id3v1Tag::from(tag.clone()).dump_to(writer, write_options),
 		TagType::Id3v2 => Id3v2Tag::from(tag.clone()).dump_to(writer, write_options),
 		TagType::Mp4Ilst => Into::<Ilst>::into(tag.clone())
 			.as_ref()
@@ -67,19 +65,7 @@ pub(crate) fn dump_tag<W: Write>(
 		}
 		.dump_to(writer, write_options)
 		.map_err(Into::into),
-		TagType::AiffText => {
-			use crate::tag::item::ItemKey;
-
-			AiffTextChunksRef {
-				name: tag.get_string(ItemKey::TrackTitle),
-				author: tag.get_string(ItemKey::TrackArtist),
-				copyright: tag.get_string(ItemKey::CopyrightMessage),
-				annotations: Some(tag.get_strings(ItemKey::Comment)),
-				comments: None,
-			}
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+		TagType::AiffText => AiffTextChunks::from(tag.clone()).dump_to(writer, write_options),
 		_ => Ok(()),
 	}
 }
diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index 4ad8c1e..de0e4c0 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -51,7 +51,11 @@ pub(crate) fn init_write_lookup(
 	});
 
 	insert!(map, Id3v1, {
-		Into::<lofty::id3::v1::tag::Id3v1TagRef<'_>>::into(tag).write_to(file, write_options)
+		lofty::tag::TagWriteExt::save_to(
+			&lofty::id3::v1::Id3v1Tag::from(tag.clone()),
+			file,
+			write_options,
+		)
 	});
 
 	if id3v2_strippable {
@@ -76,14 +80,11 @@ pub(crate) fn init_write_lookup(
 	});
 
 	insert!(map, AiffText, {
-		lofty::iff::aiff::tag::AiffTextChunksRef {
-			name: tag.get_string(lofty::prelude::ItemKey::TrackTitle),
-			author: tag.get_string(lofty::prelude::ItemKey::TrackArtist),
-			copyright: tag.get_string(lofty::prelude::ItemKey::CopyrightMessage),
-			annotations: Some(tag.get_strings(lofty::prelude::ItemKey::Comment)),
-			comments: None,
-		}
-		.write_to(file, write_options)
+		lofty::tag::TagWriteExt::save_to(
+			&lofty::iff::aiff::AiffTextChunks::from(tag.clone()),
+			file,
+			write_options,
+		)
 	});
 
 	map
-- 
2.43.0


From 29f5dcb900757aa830e59272b1a239cd65124239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 056/113] fix: Save RIFF INFO ratings and locators of generic
 tags like converted ones

---
 lofty/src/iff/wav/tag/mod.rs | 20 --------------------
 lofty/src/tag/utils.rs       |  8 ++------
 lofty_attr/src/internal.rs   |  9 +++++----
 3 files changed, 7 insertions(+), 30 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 6fd41ea..7d8743f 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -375,26 +375,6 @@ fn item_value<'a>(key: &str, value: &'a str) -> Cow<'a, str> {
 	Cow::Borrowed(value)
 }
 
-pub(crate) fn tagitems_into_riff<'a>(
-	items: impl IntoIterator<Item = &'a TagItem>,
-) -> impl Iterator<Item = (&'a str, Cow<'a, str>)> {
-	items.into_iter().filter_map(|i| {
-		let (ItemValue::Text(val) | ItemValue::Locator(val)) = i.value() else {
-			return None;
-		};
-
-		let key = i.key().map_key(TagType::RiffInfo)?;
-
-		// Special case for generic popularimeters
-		if i.key() == ItemKey::Popularimeter && Popularimeter::from_str(val).is_err() {
-			log::warn!("Failed to parse popularimeter during tag merge, skipping");
-			return None;
-		}
-
-		Some((key, item_value(key, val)))
-	})
-}
-
 #[cfg(test)]
 mod tests {
 	use crate::config::{ParsingMode, WriteOptions};
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index b7b8f33..6ce129a 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -11,7 +11,7 @@ use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
 use ape::ApeTag;
 use iff::aiff::AiffTextChunks;
-use iff::wav::tag::RIFFInfoListRef;
+use iff::wav::RiffInfoList;
 
 use std::io::Write;
 
@@ -60,11 +60,7 @@ pub(crate) fn dump_tag<W: Write>(
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
 		TagType::VorbisComments => VorbisComments::from(tag.clone()).dump_to(writer, write_options),
-		TagType::RiffInfo => RIFFInfoListRef {
-			items: iff::wav::tag::tagitems_into_riff(tag.items()),
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+		TagType::RiffInfo => RiffInfoList::from(tag.clone()).dump_to(writer, write_options),
 		TagType::AiffText => AiffTextChunks::from(tag.clone()).dump_to(writer, write_options),
 		_ => Ok(()),
 	}
diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index de0e4c0..50f7192 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -73,10 +73,11 @@ pub(crate) fn init_write_lookup(
 	}
 
 	insert!(map, RiffInfo, {
-		lofty::iff::wav::tag::RIFFInfoListRef::new(lofty::iff::wav::tag::tagitems_into_riff(
-			tag.items(),
-		))
-		.write_to(file, write_options)
+		lofty::tag::TagWriteExt::save_to(
+			&lofty::iff::wav::RiffInfoList::from(tag.clone()),
+			file,
+			write_options,
+		)
 	});
 
 	insert!(map, AiffText, {
-- 
2.43.0


From 2ccd8f4b45ca4beeafada57b9f59a84634981e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 057/113] fix: Write every mapped key when converting to ID3v2

---
 lofty/src/id3/v2/tag/conversion.rs | 74 +++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index ec70a6f..399b19b 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -136,7 +136,6 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::InternetRadioStationName
 			| ItemKey::InternetRadioStationOwner
 			| ItemKey::Remixer
-			| ItemKey::Work
 			| ItemKey::Movement
 			| ItemKey::FileOwner
 			| ItemKey::CopyrightMessage
@@ -187,7 +186,7 @@ pub(crate) fn from_tag<'a>(
 				let (value, _) = take_item_text_and_description(item)?;
 
 				let frame_id = item_key.map_key(TagType::Id3v2).expect("valid frame id");
-				ctx.txxx_frames.insert(frame_id, value);
+				ctx.txxx_frames.entry(frame_id).or_insert(value);
 
 				// Collected at the end
 				None
@@ -270,19 +269,28 @@ pub(crate) fn from_tag<'a>(
 			},
 
 			ItemKey::TrackNumber => {
-				ctx.track_number = parse_number(&item);
+				ctx.track_number = ctx.track_number.or_else(|| parse_number(&item));
 				None
 			},
 			ItemKey::TrackTotal => {
-				ctx.track_total = parse_number(&item);
+				ctx.track_total = ctx.track_total.or_else(|| parse_number(&item));
 				None
 			},
 			ItemKey::DiscNumber => {
-				ctx.disc_number = parse_number(&item);
+				ctx.disc_number = ctx.disc_number.or_else(|| parse_number(&item));
 				None
 			},
 			ItemKey::DiscTotal => {
-				ctx.disc_total = parse_number(&item);
+				ctx.disc_total = ctx.disc_total.or_else(|| parse_number(&item));
+				None
+			},
+
+			ItemKey::MovementNumber => {
+				ctx.movement_number = ctx.movement_number.or_else(|| parse_number(&item));
+				None
+			},
+			ItemKey::MovementTotal => {
+				ctx.movement_total = ctx.movement_total.or_else(|| parse_number(&item));
 				None
 			},
 
@@ -330,22 +338,42 @@ pub(crate) fn from_tag<'a>(
 
 			// Anything else
 			_ => {
-				if let Some(mapped) = item_key.map_key(TagType::Id3v2)
-					&& mapped.len() == 4
-				{
+				let mapped = item_key.map_key(TagType::Id3v2)?;
+
+				let is_frame_id = mapped.len() == 4 && item_key != ItemKey::Work;
+				if is_frame_id && mapped.starts_with('W') {
 					let id = FrameId::new(mapped).ok()?;
+					let (value, _) = take_item_text_and_description(item)?;
+					return Some(new_url_frame(id, value));
+				}
 
-					if id.as_str().starts_with('T') {
-						let (value, _) = take_item_text_and_description(item)?;
-						return Some(new_text_frame(id, value));
-					}
+				let frames = if !is_frame_id {
+					&mut ctx.txxx_frames
+				} else if mapped.starts_with('T') {
+					&mut ctx.text_frames
+				} else {
+					return None;
+				};
 
-					if id.as_str().starts_with('W') {
-						let (value, _) = take_item_text_and_description(item)?;
-						return Some(new_url_frame(id, value));
-					}
+				let (value, _) = take_item_text_and_description(item)?;
+				match item_key {
+					// Numbers and timestamps, which can only have a single value
+					ItemKey::IntegerBpm
+					| ItemKey::Length
+					| ItemKey::ReleaseDate
+					| ItemKey::EncodingTime
+					| ItemKey::TaggingTime => {
+						frames.entry(mapped).or_insert(value);
+					},
+					_ => {
+						frames
+							.entry(mapped)
+							.and_modify(|current| extend_text(current, &value))
+							.or_insert(value);
+					},
 				}
 
+				// Collected at the end
 				None
 			},
 		}
@@ -375,6 +403,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: Option<u32>,
 		disc_number: Option<u32>,
 		disc_total: Option<u32>,
+		movement_number: Option<u32>,
+		movement_total: Option<u32>,
 	}
 
 	#[derive(Hash, PartialEq, Eq)]
@@ -397,6 +427,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
+		movement_number: None,
+		movement_total: None,
 	};
 
 	let mut frames = HashSet::with_capacity_and_hasher(items.len(), Hasher::default());
@@ -450,6 +482,14 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
+	if let Some(movement_frame) = new_number_pair_frame(
+		FrameId::Valid(Cow::Borrowed("MVIN")),
+		ctx.movement_number,
+		ctx.movement_total,
+	) {
+		frames.insert(movement_frame);
+	}
+
 	frames
 }
 
-- 
2.43.0


From b6ac3e769fcd1238004ca195d6481806af9d5dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 058/113] fix: Store the ID3v2 podcast flag as an integer

---
 lofty/src/id3/v2/frame/content.rs | 11 +++++++++++
 lofty/src/id3/v2/frame/mod.rs     |  8 ++++++++
 lofty/src/id3/v2/write/frame.rs   |  2 +-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/content.rs b/lofty/src/id3/v2/frame/content.rs
index 9361854..fe4ef15 100644
--- a/lofty/src/id3/v2/frame/content.rs
+++ b/lofty/src/id3/v2/frame/content.rs
@@ -67,6 +67,17 @@ pub(super) fn parse_content<R: Read>(
 		"GRP1" | "MVNM" | "MVIN" => TextInformationFrame::parse(reader, id, flags, version)
 			.transpose()?
 			.map(Frame::Text),
+		// PCST (Podcast flag) is a 32-bit integer
+		"PCST" => BinaryFrame::parse(reader, id.clone(), flags).map(|binary| {
+			let Ok(flag) = <[u8; 4]>::try_from(&*binary.data) else {
+				return Frame::Binary(binary);
+			};
+
+			let value = u32::from_be_bytes(flag).to_string();
+			let mut frame = TextInformationFrame::new(id, TextEncoding::Latin1, value);
+			frame.set_flags(flags);
+			Frame::Text(frame)
+		}),
 		i if i.starts_with('W') => UrlLinkFrame::parse(reader, id, flags)
 			.transpose()?
 			.map(Frame::Url),
diff --git a/lofty/src/id3/v2/frame/mod.rs b/lofty/src/id3/v2/frame/mod.rs
index e4ec424..3f9ab8a 100644
--- a/lofty/src/id3/v2/frame/mod.rs
+++ b/lofty/src/id3/v2/frame/mod.rs
@@ -252,6 +252,14 @@ impl Frame<'_> {
 		let ret = match self {
 			Frame::Comment(comment) => comment.as_bytes(ctx.write_options),
 			Frame::UnsynchronizedText(lf) => lf.as_bytes(ctx.write_options),
+			// PCST (Podcast flag) is a 32-bit integer
+			Frame::Text(tif) if tif.id().as_str() == "PCST" => match tif.value.parse::<u32>() {
+				Ok(flag) => Ok(flag.to_be_bytes().to_vec()),
+				Err(_) => Err(FrameEncodingError::message(
+					None,
+					"the podcast flag must be a number",
+				)),
+			},
 			Frame::Text(tif) => tif.as_bytes(ctx.write_options),
 			Frame::UserText(content) => content.as_bytes(ctx.write_options),
 			Frame::UserUrl(content) => content.as_bytes(ctx.write_options),
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index c248bf7..74a59e2 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -275,7 +275,7 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("UFID", Frame::UniqueFileIdentifier(_))
 		| ("POPM", Frame::Popularimeter(_))
 		| ("TIPL" | "TMCL", Frame::KeyValue { .. })
-		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
+		| ("WFED" | "GRP1" | "MVNM" | "MVIN" | "PCST", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
 		| ("OWNE", Frame::Ownership(_))
-- 
2.43.0


From bb1be7181ae70fbbb3a942376c62f569d995659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 059/113] fix: Keep comment descriptions and odd recording IDs
 when splitting ID3v2 tags

---
 lofty/src/id3/v2/tag.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 06d0d69..f0bb8bb 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -789,6 +789,12 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 			) else {
 				return FRAME_RETAINED;
 			};
+
+			if !recording_id.content.is_ascii() {
+				// Not a valid recording ID
+				return FRAME_RETAINED;
+			}
+
 			tag.items.push(TagItem::new(
 				ItemKey::MusicBrainzRecordingId,
 				ItemValue::Text(recording_id.content),
@@ -820,7 +826,7 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				item.set_lang(*language);
 
 				if *description != EMPTY_CONTENT_DESCRIPTOR {
-					item.set_description(std::mem::take(description).into_owned());
+					item.set_description(description.to_string());
 				}
 
 				tag.items.push(item);
-- 
2.43.0


From 50dc1209fa8e61f191d2616095c3c7a825967ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 060/113] fix: Keep the encoder fields of Vorbis Comments when
 merging

---
 lofty/src/ogg/tag.rs | 52 +++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index 00ee946..32e6e48 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -516,11 +516,15 @@ impl TagWriteExt for VorbisComments {
 ///
 /// See [`SplitTag`]
 #[derive(Debug, Clone, Default)]
-pub struct SplitTagRemainder(VorbisComments);
+pub struct SplitTagRemainder {
+	remainder: VorbisComments,
+	/// The tag had encoder fields, so its vendor string isn't in the split tag
+	had_encoders: bool,
+}
 
 impl From<SplitTagRemainder> for VorbisComments {
 	fn from(from: SplitTagRemainder) -> Self {
-		from.0
+		from.remainder
 	}
 }
 
@@ -528,7 +532,7 @@ impl Deref for SplitTagRemainder {
 	type Target = VorbisComments;
 
 	fn deref(&self) -> &Self::Target {
-		&self.0
+		&self.remainder
 	}
 }
 
@@ -583,12 +587,13 @@ impl SplitTag for VorbisComments {
 			ITEM_CONSUMED // Item consumed
 		});
 
-		// We need to preserve the vendor string
-		if !tag
+		let had_encoders = tag
 			.items
 			.iter()
-			.any(|i| i.key() == ItemKey::EncoderSoftware)
-		{
+			.any(|i| i.key() == ItemKey::EncoderSoftware);
+
+		// We need to preserve the vendor string
+		if !had_encoders {
 			tag.items.push(TagItem::new(
 				ItemKey::EncoderSoftware,
 				// Preserve the original vendor by cloning
@@ -600,7 +605,13 @@ impl SplitTag for VorbisComments {
 			tag.push_picture(pic)
 		}
 
-		(SplitTagRemainder(self), tag)
+		(
+			SplitTagRemainder {
+				remainder: self,
+				had_encoders,
+			},
+			tag,
+		)
 	}
 }
 
@@ -608,14 +619,25 @@ impl MergeTag for SplitTagRemainder {
 	type Merged = VorbisComments;
 
 	fn merge_tag(self, mut tag: Tag) -> Self::Merged {
-		let Self(mut merged) = self;
-
-		if let Some(TagItem {
-			item_value: ItemValue::Text(val),
-			..
-		}) = tag.take(ItemKey::EncoderSoftware).next()
+		let Self {
+			remainder: mut merged,
+			had_encoders,
+		} = self;
+
+		// The vendor string is the first encoder, unless they were all fields to begin with
+		if !had_encoders
+			&& let mut encoders = tag.items.iter().enumerate().filter_map(|(pos, item)| {
+				match (item.item_key, &item.item_value) {
+					(ItemKey::EncoderSoftware, ItemValue::Text(val)) => Some((pos, val)),
+					_ => None,
+				}
+			}) && let Some((pos, val)) = encoders.next()
 		{
-			merged.vendor = val;
+			merged.vendor = val.clone();
+
+			if encoders.next().is_none() {
+				tag.items.remove(pos);
+			}
 		}
 
 		for item in tag.items {
-- 
2.43.0


From 33b052905707cfb002ac4d62db7b658665212f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 061/113] fix: Convert the APE movement total under its own key

---
 lofty/src/ape/tag/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index a020b0a..0111c1a 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -554,7 +554,8 @@ impl SplitTag for ApeTag {
 					*item = ApeItem::EMPTY;
 					false // Item consumed
 				},
-				(ItemKey::MovementNumber | ItemKey::MovementTotal, ItemValue::Text(val))
+				// Unlike the other totals, `MovementTotal` has a key of its own
+				(ItemKey::MovementNumber, ItemValue::Text(val))
 					if split_pair(
 						val,
 						&mut tag,
-- 
2.43.0


From 521765c7ed7e36fb5a816629d6ff517ac9f2c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 062/113] fix: Keep the items without a generic key when
 splitting RIFF INFO lists

---
 lofty/src/iff/wav/tag/mod.rs | 57 ++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 7d8743f..194ed25 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -262,31 +262,17 @@ impl TagWriteExt for RiffInfoList {
 }
 
 #[derive(Debug, Clone, Default)]
-pub struct SplitTagRemainder;
+pub struct SplitTagRemainder(RiffInfoList);
 
 impl SplitTag for RiffInfoList {
 	type Remainder = SplitTagRemainder;
 
-	fn split_tag(self) -> (Self::Remainder, Tag) {
-		(SplitTagRemainder, self.into())
-	}
-}
-
-impl MergeTag for SplitTagRemainder {
-	type Merged = RiffInfoList;
+	fn split_tag(mut self) -> (Self::Remainder, Tag) {
+		let mut tag = Tag::new(TagType::RiffInfo);
 
-	fn merge_tag(self, tag: Tag) -> Self::Merged {
-		tag.into()
-	}
-}
-
-impl From<RiffInfoList> for Tag {
-	fn from(input: RiffInfoList) -> Self {
-		let mut tag = Self::new(TagType::RiffInfo);
-
-		for (k, v) in input.items {
-			let Some(item_key) = ItemKey::from_key(TagType::RiffInfo, &k) else {
-				continue;
+		self.items.retain(|(k, v)| {
+			let Some(item_key) = ItemKey::from_key(TagType::RiffInfo, k) else {
+				return true;
 			};
 
 			let mut v = v.trim_matches('\0').to_string();
@@ -300,25 +286,40 @@ impl From<RiffInfoList> for Tag {
 			}
 
 			tag.items.push(TagItem::new(item_key, ItemValue::Text(v)));
-		}
+			false // Item consumed
+		});
 
-		tag
+		(SplitTagRemainder(self), tag)
 	}
 }
 
-impl From<Tag> for RiffInfoList {
-	fn from(input: Tag) -> Self {
-		let mut riff_info = RiffInfoList::default();
+impl MergeTag for SplitTagRemainder {
+	type Merged = RiffInfoList;
+
+	fn merge_tag(self, tag: Tag) -> Self::Merged {
+		let Self(mut merged) = self;
 
-		for item in input.items {
+		for item in tag.items {
 			if let ItemValue::Text(val) | ItemValue::Locator(val) = item.item_value
 				&& let Some(key) = item.item_key.map_key(TagType::RiffInfo)
 			{
-				riff_info.items.push((key.to_string(), val))
+				merged.items.push((key.to_string(), val))
 			}
 		}
 
-		riff_info
+		merged
+	}
+}
+
+impl From<RiffInfoList> for Tag {
+	fn from(input: RiffInfoList) -> Self {
+		input.split_tag().1
+	}
+}
+
+impl From<Tag> for RiffInfoList {
+	fn from(input: Tag) -> Self {
+		SplitTagRemainder::default().merge_tag(input)
 	}
 }
 
-- 
2.43.0


From cc8f31803e0031e2dfa0213010ef9124d6d10e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 063/113] fix: Read the descriptions of APE pictures as UTF-8

---
 lofty/src/picture/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index ea9d467..0628ec3 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -921,7 +921,7 @@ impl Picture {
 		let mut pos = 0;
 
 		let mut description = None;
-		let mut desc_text = String::new();
+		let mut desc_bytes = Vec::new();
 
 		while let Ok(ch) = reader.read_u8() {
 			pos += 1;
@@ -930,10 +930,17 @@ impl Picture {
 				break;
 			}
 
-			desc_text.push(char::from(ch));
+			desc_bytes.push(ch);
 		}
 
-		if !desc_text.is_empty() {
+		if !desc_bytes.is_empty() {
+			// Descriptions are UTF-8, like all text in APE tags
+			let desc_text = String::from_utf8(desc_bytes).unwrap_or_else(|err| {
+				err.into_bytes()
+					.into_iter()
+					.map(char::from)
+					.collect::<String>()
+			});
 			description = Some(Cow::from(desc_text));
 		}
 
-- 
2.43.0


From 8659282d2ade35d57ed91c9d91e556144efc00bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 064/113] fix: Match APE cover art keys without regard to case

---
 lofty/src/ape/tag/read.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 813ebab..36774e1 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -94,7 +94,11 @@ where
 
 		let key = utf8_decode(key).map_err(ApeTagItemParseError::from)?;
 
-		if APE_PICTURE_TYPES.contains(&&*key) && !parse_options.read_cover_art {
+		if !parse_options.read_cover_art
+			&& APE_PICTURE_TYPES
+				.iter()
+				.any(|picture_key| picture_key.eq_ignore_ascii_case(&key))
+		{
 			reader.seek(SeekFrom::Current(i64::from(value_size)))?;
 			continue;
 		}
-- 
2.43.0


From d57f6cea1c025cfcda81e77b149a5a181e31b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:57 +0000
Subject: [PATCH 065/113] fix: Convert APE cover art to pictures

---
 lofty/src/ape/tag/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 0111c1a..c92a5fc 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -9,6 +9,7 @@ use crate::ape::tag::item::{ApeItem, ApeItemRef};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::id3::v2::util::pairs::{format_number_pair, set_number};
+use crate::picture::{APE_PICTURE_TYPES, Picture};
 use crate::tag::items::Timestamp;
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
@@ -69,7 +70,8 @@ macro_rules! impl_accessor {
 ///
 /// ### To `Tag`
 ///
-/// Any [`ApeItem`] with an [`ItemKey`] mapping will have a 1:1 conversion to [`TagItem`].
+/// Any [`ApeItem`] with an [`ItemKey`] mapping will have a 1:1 conversion to [`TagItem`], and any item with
+/// one of [`APE_PICTURE_TYPES`] will be converted to a [`Picture`].
 ///
 /// ### From `Tag`
 ///
@@ -534,6 +536,21 @@ impl SplitTag for ApeTag {
 		let mut tag = Tag::new(TagType::Ape);
 
 		self.items.retain_mut(|item| {
+			if let ItemValue::Binary(data) = item.value()
+				&& let Some(picture_key) = APE_PICTURE_TYPES
+					.iter()
+					.find(|key| key.eq_ignore_ascii_case(item.key()))
+			{
+				// Keep the pictures that we're unable to parse
+				let Ok(picture) = Picture::from_ape_bytes(picture_key, data) else {
+					return true;
+				};
+
+				tag.push_picture(picture);
+				*item = ApeItem::EMPTY;
+				return false; // Item consumed
+			}
+
 			let Some(item_key) = ItemKey::from_key(TagType::Ape, item.key()) else {
 				return true;
 			};
-- 
2.43.0


From d283e6fc1042f173fd59eff3628e99916f54a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 066/113] fix: Accept short COVERART fields in Vorbis comments

---
 lofty/src/picture/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 0628ec3..fc3c4df 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -962,8 +962,8 @@ impl Picture {
 	}
 
 	pub(crate) fn mimetype_from_bin(bytes: &[u8]) -> Result<MimeType, UnknownImageFormatError> {
-		match bytes[..8] {
-			[0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A] => Ok(MimeType::Png),
+		match *bytes {
+			[0x89, b'P', b'N', b'G', 0x0D, 0x0A, 0x1A, 0x0A, ..] => Ok(MimeType::Png),
 			[0xFF, 0xD8, ..] => Ok(MimeType::Jpeg),
 			[b'G', b'I', b'F', 0x38, 0x37 | 0x39, b'a', ..] => Ok(MimeType::Gif),
 			[b'B', b'M', ..] => Ok(MimeType::Bmp),
-- 
2.43.0


From 003f2a31d9e3fb47c54842e9d71064291f6b6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 067/113] fix: Reject JPEG sections that are too short

---
 lofty/src/picture/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index fc3c4df..2efb32e 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -471,12 +471,17 @@ impl PictureInformation {
 				return Ok(Self {
 					width,
 					height,
-					color_depth: u32::from(precision * components),
+					color_depth: u32::from(precision) * u32::from(components),
 					num_colors: 0,
 				});
 			}
 
-			reader.seek(SeekFrom::Current(i64::from(section_len - 2)))?;
+			// The length contains itself, so anything < 2 is invalid
+			let Some(content_len) = section_len.checked_sub(2) else {
+				return Err(NotEnoughDataError::new(Some(2)).into());
+			};
+
+			reader.seek(SeekFrom::Current(i64::from(content_len)))?;
 		}
 
 		Err(UnknownImageFormatError.into())
-- 
2.43.0


From 92efcaa6d16841e33f4022916d85fdb9c6fe86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 068/113] fix: Count two channels in greyscale PNGs with alpha

---
 lofty/src/picture/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 2efb32e..6604c18 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -370,7 +370,8 @@ impl PictureInformation {
 
 		match color_type {
 			2 => color_depth *= 3,
-			4 | 6 => color_depth *= 4,
+			4 => color_depth *= 2,
+			6 => color_depth *= 4,
 			_ => {},
 		}
 
-- 
2.43.0


From 481890210124b81591259a45701cbbf69ca17a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 069/113] fix: Keep the existing icon when a new one is refused

---
 lofty/src/ogg/picture_storage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lofty/src/ogg/picture_storage.rs b/lofty/src/ogg/picture_storage.rs
index 3e60a86..a3deae0 100644
--- a/lofty/src/ogg/picture_storage.rs
+++ b/lofty/src/ogg/picture_storage.rs
@@ -24,6 +24,11 @@ pub trait OggPictureStorage: private::Sealed {
 		picture: Picture,
 		information: Option<PictureInformation>,
 	) -> Result<Option<(Picture, PictureInformation)>, PictureParseError> {
+		let info = match information {
+			Some(pic_info) => pic_info,
+			None => PictureInformation::from_picture(&picture)?,
+		};
+
 		let ret = match picture.pic_type {
 			PictureType::Icon | PictureType::OtherIcon => self
 				.pictures()
@@ -33,11 +38,6 @@ pub trait OggPictureStorage: private::Sealed {
 			_ => None,
 		};
 
-		let info = match information {
-			Some(pic_info) => pic_info,
-			None => PictureInformation::from_picture(&picture)?,
-		};
-
 		self.pictures_mut().push((picture, info));
 
 		Ok(ret)
-- 
2.43.0


From bccb4c4893ab0bcf20fd0e794898accaa1db9ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 070/113] fix: Keep the order of Vorbis comments when removing
 a field

---
 lofty/src/ogg/tag.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index 32e6e48..6707eeb 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -304,14 +304,12 @@ impl VorbisComments {
 	/// ```
 	pub fn remove<'a>(&'a mut self, key: &str) -> impl Iterator<Item = String> + use<'a> {
 		// TODO: drain_filter
-		let mut split_idx = 0_usize;
-
-		for read_idx in 0..self.items.len() {
-			if self.items[read_idx].0.eq_ignore_ascii_case(key) {
-				self.items.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
+		// A stable sort, the remaining items have to stay in order
+		self.items
+			.sort_by_key(|(k, _)| !k.eq_ignore_ascii_case(key));
+		let split_idx = self
+			.items
+			.partition_point(|(k, _)| k.eq_ignore_ascii_case(key));
 
 		self.items.drain(..split_idx).map(|(_, v)| v)
 	}
-- 
2.43.0


From b562b12c230bdd31337c1989d002cd6c5fed5a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 071/113] fix: Look up RIFF INFO items without regard to case

---
 lofty/src/iff/wav/tag/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 194ed25..d6b1082 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -82,10 +82,12 @@ impl RiffInfoList {
 	}
 
 	/// Get an item by key
+	///
+	/// NOTE: This is case-insensitive
 	pub fn get(&self, key: &str) -> Option<&str> {
 		self.items
 			.iter()
-			.find(|(k, _)| k == key)
+			.find(|(k, _)| k.eq_ignore_ascii_case(key))
 			.map(|(_, v)| v.as_str())
 	}
 
-- 
2.43.0


From 4f7f13c5b3bb440fefe7814a249903d898fe4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 072/113] fix: Keep the order of the remaining items in
 Tag::take_filter()

---
 lofty/src/tag/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/tag/mod.rs b/lofty/src/tag/mod.rs
index 7133a95..e1096cf 100644
--- a/lofty/src/tag/mod.rs
+++ b/lofty/src/tag/mod.rs
@@ -471,7 +471,7 @@ impl Tag {
 		for read_idx in 0..self.items.len() {
 			let item = &self.items[read_idx];
 			if item.key() == key && filter(item) {
-				self.items.swap(split_idx, read_idx);
+				self.items[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
-- 
2.43.0


From b40d3e8df718e1f32807d8ee91ac273e47920d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 073/113] fix: Keep the order of ilst atoms when removing an
 atom

---
 lofty/src/mp4/ilst/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index cd5b3db..f7e8117 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -277,7 +277,7 @@ impl Ilst {
 
 		for read_idx in 0..self.atoms.len() {
 			if &self.atoms[read_idx].ident == ident {
-				self.atoms.swap(split_idx, read_idx);
+				self.atoms[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
-- 
2.43.0


From 5b8b9d3edf76debbb264f2bc214d952c200a761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 074/113] fix: Keep the order of ID3v2 frames when removing a
 frame

---
 lofty/src/id3/v2/frame/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index cf16f10..eeb6c46 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -331,7 +331,7 @@ impl<'a> FrameList<'a> {
 
 		for read_idx in 0..self.0.len() {
 			if self.0[read_idx].id() == id {
-				self.0.to_mut().swap(split_idx, read_idx);
+				self.0.to_mut()[split_idx..=read_idx].rotate_right(1);
 				split_idx += 1;
 			}
 		}
-- 
2.43.0


From 7d89575b7075589e628945b88ae39ce99e9f244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 075/113] fix: Remove Vorbis comments without sorting

---
 lofty/src/ogg/tag.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index 6707eeb..f6eb713 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -304,12 +304,14 @@ impl VorbisComments {
 	/// ```
 	pub fn remove<'a>(&'a mut self, key: &str) -> impl Iterator<Item = String> + use<'a> {
 		// TODO: drain_filter
-		// A stable sort, the remaining items have to stay in order
-		self.items
-			.sort_by_key(|(k, _)| !k.eq_ignore_ascii_case(key));
-		let split_idx = self
-			.items
-			.partition_point(|(k, _)| k.eq_ignore_ascii_case(key));
+		let mut split_idx = 0_usize;
+
+		for read_idx in 0..self.items.len() {
+			if self.items[read_idx].0.eq_ignore_ascii_case(key) {
+				self.items[split_idx..=read_idx].rotate_right(1);
+				split_idx += 1;
+			}
+		}
 
 		self.items.drain(..split_idx).map(|(_, v)| v)
 	}
-- 
2.43.0


From f6eeab06c0365e89ac875dbf90e6c26b5c6b614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 076/113] fix: Find borrowed pictures in ID3v2 frame lists

---
 lofty/src/id3/v2/frame/list.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index eeb6c46..f1a9c53 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -342,12 +342,8 @@ impl<'a> FrameList<'a> {
 	/// Removes a certain [`PictureType`]
 	pub fn remove_picture_type(&mut self, picture_type: PictureType) {
 		self.0.to_mut().retain(|f| {
-			!matches!(f, Frame::Picture(AttachedPictureFrame {
-						picture: Cow::Owned(Picture {
-							pic_type: p_ty,
-							..
-						}), ..
-					}) if p_ty == &picture_type)
+			!matches!(f, Frame::Picture(AttachedPictureFrame { picture, .. })
+					if picture.pic_type == picture_type)
 		})
 	}
 
@@ -465,9 +461,8 @@ impl FrameList<'static> {
 			for (i, frame) in self.0.iter().enumerate() {
 				match frame {
 					Frame::Picture(AttachedPictureFrame {
-						picture: Cow::Owned(Picture { pic_type, .. }),
-						..
-					}) if pic_type == &picture.pic_type => {
+						picture: existing, ..
+					}) if existing.pic_type == picture.pic_type => {
 						pos = Some(i);
 						break;
 					},
-- 
2.43.0


From 82d8f6b3f2f81fec8ba9c3bdf3ada801200a1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 077/113] fix: Store the date set through Id3v2Tag::set_date()
 as a timestamp

---
 lofty/src/id3/v2/tag.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index f0bb8bb..5dc70bc 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -491,7 +491,12 @@ impl Accessor for Id3v2Tag {
 	}
 
 	fn set_date(&mut self, value: Timestamp) {
-		self.insert(Frame::text(Cow::Borrowed("TDRC"), value.to_string()));
+		self.remove_date();
+		self.insert(Frame::Timestamp(TimestampFrame::new(
+			RECORDING_TIME_ID,
+			TextEncoding::UTF8,
+			value,
+		)));
 	}
 
 	fn remove_date(&mut self) {
-- 
2.43.0


From 43bf46520f02255e738342ef0cf8ad3cb86d53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:50 +0000
Subject: [PATCH 078/113] fix: Refuse to write ilst atoms with invalid
 identifiers

---
 lofty/src/mp4/atom_info.rs  |  2 +-
 lofty/src/mp4/ilst/write.rs | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 7d1b1cd..363cf9f 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -127,7 +127,7 @@ pub(crate) struct AtomInfo {
 //
 // TagLib has decided on a character set to consider valid, so we will do the same:
 // <https://github.com/taglib/taglib/issues/1077#issuecomment-1440385838>
-fn is_valid_identifier_byte(b: u8) -> bool {
+pub(super) fn is_valid_identifier_byte(b: u8) -> bool {
 	(b' '..=b'~').contains(&b) || b == b'\xA9'
 }
 
diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 80807fb..2157f24 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -8,7 +8,9 @@ use crate::file::FileType;
 use crate::io::VerifiedFile;
 use crate::macros::try_vec;
 use crate::mp4::AtomData;
-use crate::mp4::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo, FOURCC_LEN};
+use crate::mp4::atom_info::{
+	ATOM_HEADER_LEN, AtomIdent, AtomInfo, FOURCC_LEN, is_valid_identifier_byte,
+};
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::mp4::ilst::error::IlstEncodingError;
 use crate::mp4::ilst::r#ref::AtomRef;
@@ -536,7 +538,17 @@ where
 		write_handle.write_all(&[0; FOURCC_LEN as usize])?;
 
 		match atom.ident {
-			AtomIdent::Fourcc(ref fourcc) => write_handle.write_all(fourcc)?,
+			AtomIdent::Fourcc(ref fourcc) => {
+				// No reader would get past it
+				if !fourcc.iter().copied().all(is_valid_identifier_byte) {
+					return Err(IlstEncodingError::message(format!(
+						"atom ident '{}' contains invalid characters",
+						fourcc.escape_ascii()
+					)));
+				}
+
+				write_handle.write_all(fourcc)?
+			},
 			AtomIdent::Freeform { mean, name } => write_freeform(&mean, &name, &mut write_handle)?,
 		}
 
-- 
2.43.0


From 52c16f9ff62c21d0adcea6ded46ad140f3cb5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 079/113] fix: Don't write ID3v2 frames without content

---
 lofty/src/id3/v2/write/frame.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 74a59e2..33036cd 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -305,6 +305,12 @@ fn write_frame<W>(
 where
 	W: Write,
 {
+	// "A frame must be at least 1 byte big, excluding the header."
+	if value.is_empty() {
+		log::warn!("Frame {name} has no content, discarding");
+		return Ok(());
+	}
+
 	// The content is always written as-is, without any of these transformations
 	flags.unsynchronisation = false;
 	flags.compression = false;
-- 
2.43.0


From be1ff6c5adf2aad6b83c0adeda49d988c9d01dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 080/113] fix: Remove every comment in
 AiffTextChunks::remove_comment()

---
 lofty/src/iff/aiff/tag/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 8ec4fc6..1a4892c 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -123,6 +123,7 @@ impl Accessor for AiffTextChunks {
 	}
 	fn remove_comment(&mut self) {
 		self.annotations = None;
+		self.comments = None;
 	}
 }
 
-- 
2.43.0


From 5f7df868ab26c218485bfc26b1b04466fc1708fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 081/113] fix: Don't truncate numbers that don't fit into trkn
 and disk atoms

---
 lofty/src/mp4/ilst/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index f7e8117..4d20ea7 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -514,7 +514,11 @@ impl Accessor for Ilst {
 	}
 
 	fn set_track(&mut self, value: u32) {
-		let track = (value as u16).to_be_bytes();
+		// A number that doesn't fit is ignored
+		let Ok(track) = u16::try_from(value) else {
+			return;
+		};
+		let track = track.to_be_bytes();
 		let track_total = (self.track_total().unwrap_or(0) as u16).to_be_bytes();
 
 		let data = vec![0, 0, track[0], track[1], track_total[0], track_total[1]];
@@ -530,7 +534,11 @@ impl Accessor for Ilst {
 	}
 
 	fn set_track_total(&mut self, value: u32) {
-		let track_total = (value as u16).to_be_bytes();
+		// A number that doesn't fit is ignored
+		let Ok(track_total) = u16::try_from(value) else {
+			return;
+		};
+		let track_total = track_total.to_be_bytes();
 		let track = (self.track().unwrap_or(0) as u16).to_be_bytes();
 
 		let data = vec![0, 0, track[0], track[1], track_total[0], track_total[1]];
@@ -554,7 +562,11 @@ impl Accessor for Ilst {
 	}
 
 	fn set_disk(&mut self, value: u32) {
-		let disk = (value as u16).to_be_bytes();
+		// A number that doesn't fit is ignored
+		let Ok(disk) = u16::try_from(value) else {
+			return;
+		};
+		let disk = disk.to_be_bytes();
 		let disk_total = (self.disk_total().unwrap_or(0) as u16).to_be_bytes();
 
 		let data = vec![0, 0, disk[0], disk[1], disk_total[0], disk_total[1]];
@@ -570,7 +582,11 @@ impl Accessor for Ilst {
 	}
 
 	fn set_disk_total(&mut self, value: u32) {
-		let disk_total = (value as u16).to_be_bytes();
+		// A number that doesn't fit is ignored
+		let Ok(disk_total) = u16::try_from(value) else {
+			return;
+		};
+		let disk_total = disk_total.to_be_bytes();
 		let disk = (self.disk().unwrap_or(0) as u16).to_be_bytes();
 
 		let data = vec![0, 0, disk[0], disk[1], disk_total[0], disk_total[1]];
-- 
2.43.0


From d317a03843e1f3043b901d1a3dd1fcbdb8cb6cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:48 +0000
Subject: [PATCH 082/113] fix: Replace timestamp and key-value frames with the
 same ID in FrameList::insert()

---
 lofty/src/id3/v2/frame/list.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index f1a9c53..2ba0452 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -242,7 +242,11 @@ impl<'a> FrameList<'a> {
 			"MCDI", "ETCO", "MLLT", "SYTC", "RVRB", "PCNT", "RBUF", "POSS", "OWNE", "SEEK", "ASPI",
 		];
 
-		if ONE_PER_TAG.contains(&frame.id_str()) {
+		// ... as do all text information frames, which includes the timestamps and lists of people
+		let one_per_tag = matches!(frame, Frame::Timestamp(_) | Frame::KeyValue(_))
+			|| ONE_PER_TAG.contains(&frame.id_str());
+
+		if one_per_tag {
 			let ret = self.remove(frame.id()).next();
 			self.push(frame);
 			return ret;
-- 
2.43.0


From e185fc553db8f297f87992a904fb5bd704dd3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 083/113] fix: Continue after the declared end of a leading APE
 tag in MPEG files

---
 lofty/src/mpeg/read.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 50e88d8..078efa6 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -81,6 +81,10 @@ where
 				if &header_remaining == b"AGEX" {
 					let ape_header = read_ape_header(reader, false).map_err(TagParseError::from)?;
 
+					// The size includes the header, which was already read
+					let ape_tag_end =
+						reader.stream_position()? + u64::from(ape_header.size.saturating_sub(32));
+
 					if parse_options.read_tags {
 						file.ape_tag = Some(
 							crate::ape::tag::read::read_ape_tag_with_header(
@@ -90,11 +94,11 @@ where
 							)
 							.map_err(TagParseError::from)?,
 						);
-					} else {
-						// The size includes the header, which was already read
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 					}
 
+					// The items don't have to fill the tag
+					reader.seek(SeekFrom::Start(ape_tag_end))?;
+
 					continue;
 				}
 
-- 
2.43.0


From ae53831a08d6b49fea59401550b491c69c329054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 084/113] fix: Discard invalid UFID and RVA2 frames in relaxed
 mode

---
 lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs | 1 +
 lofty/src/id3/v2/items/unique_file_identifier.rs           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 18d028a..17cc151 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -183,6 +183,7 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 						channel_type = ChannelType::Other
 					},
 					// Relaxed mode will just discard the frame entirely
+					Err(_) if parse_mode == ParsingMode::Relaxed => return Ok(None),
 					Err(e) => return Err(e.into()),
 				}
 
diff --git a/lofty/src/id3/v2/items/unique_file_identifier.rs b/lofty/src/id3/v2/items/unique_file_identifier.rs
index 7c0e0eb..9e8c5f2 100644
--- a/lofty/src/id3/v2/items/unique_file_identifier.rs
+++ b/lofty/src/id3/v2/items/unique_file_identifier.rs
@@ -92,6 +92,8 @@ impl<'a> UniqueFileIdentifierFrame<'a> {
 				None if parse_mode == ParsingMode::BestAttempt => {
 					owner = String::new();
 				},
+				// Relaxed mode will just discard the frame entirely
+				None if parse_mode == ParsingMode::Relaxed => return Ok(None),
 				None => return Err(FrameParseError::message(None, "empty owner field")),
 			}
 
-- 
2.43.0


From 6c09603dd91ecb77ba97085c4ab13947305b7725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 085/113] fix: Continue after the end of a LIST chunk whose
 last item is damaged

---
 lofty/src/iff/chunk.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lofty/src/iff/chunk.rs b/lofty/src/iff/chunk.rs
index 68600de..3d6d557 100644
--- a/lofty/src/iff/chunk.rs
+++ b/lofty/src/iff/chunk.rs
@@ -86,7 +86,7 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 		if !valid_fourcc(fourcc) {
 			log::warn!("Encountered invalid FourCC, stopping");
 
-			self.remaining_size = 0;
+			self.stop(4)?;
 
 			if parse_mode == ParsingMode::Strict {
 				return Err(SizeMismatchError.into());
@@ -101,13 +101,20 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 			"Parsed chunk header: (FourCC={}, size={size})",
 			fourcc.escape_ascii()
 		);
-		if u64::from(size) > self.remaining_size {
+
+		let mut available = self.remaining_size;
+		if self.lock_state.is_some() {
+			// A chunk can never exceed its parent
+			available -= u64::from(IFF_CHUNK_HEADER_SIZE);
+		}
+
+		if u64::from(size) > available {
 			log::warn!(
 				"Chunk exceeds reader size, stopping (size: {size}, remaining: {})",
 				self.remaining_size
 			);
 
-			self.remaining_size = 0;
+			self.stop(IFF_CHUNK_HEADER_SIZE)?;
 
 			if parse_mode == ParsingMode::Strict {
 				return Err(SizeMismatchError.into());
@@ -130,6 +137,20 @@ impl<R: Read + Seek, B: ByteOrder> Chunks<R, B> {
 		}))
 	}
 
+	/// Skip everything that follows in the current scope
+	///
+	/// `consumed` is the number of bytes that were already read from the next chunk.
+	fn stop(&mut self, consumed: u32) -> Result<(), ChunkParseError> {
+		if self.lock_state.is_some() {
+			// There are more chunks to come once the reader is unlocked
+			let rest = self.remaining_size.saturating_sub(u64::from(consumed));
+			self.reader.seek(SeekFrom::Current(rest as i64))?;
+		}
+
+		self.remaining_size = 0;
+		Ok(())
+	}
+
 	/// Skip the rest of the current chunk's content
 	pub fn skip(&mut self) -> Result<(), ChunkParseError> {
 		if self.current_chunk_remaining_size > 0 {
-- 
2.43.0


From 6b205f44ad4d496fa127a51c653b2682a0d2676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:04 +0000
Subject: [PATCH 086/113] fix: Don't read FLAC pictures when tags are not read

---
 lofty/src/flac/read.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/flac/read.rs b/lofty/src/flac/read.rs
index 44dbc3d..54a4658 100644
--- a/lofty/src/flac/read.rs
+++ b/lofty/src/flac/read.rs
@@ -78,10 +78,13 @@ where
 
 	let mut last_block = stream_info.last;
 
+	// Pictures are a part of the tag
+	let read_pictures = parse_options.read_tags && parse_options.read_cover_art;
+
 	while !last_block {
 		let block = Block::read(data, |block_type| {
 			(block_type == BLOCK_ID_VORBIS_COMMENTS && parse_options.read_tags)
-				|| (block_type == BLOCK_ID_PICTURE && parse_options.read_cover_art)
+				|| (block_type == BLOCK_ID_PICTURE && read_pictures)
 		})?;
 
 		last_block = block.last;
@@ -121,7 +124,7 @@ where
 			continue;
 		}
 
-		if block.ty == BLOCK_ID_PICTURE && parse_options.read_cover_art {
+		if block.ty == BLOCK_ID_PICTURE && read_pictures {
 			log::debug!("Encountered a FLAC picture block, parsing");
 
 			match Picture::from_flac_bytes(&block.content, false, parse_options.parsing_mode) {
-- 
2.43.0


From a3c2cf730c2fb6da9f69b6007c58ed02dd094a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 087/113] fix: Always write 4 digits in TYER frames

---
 lofty/src/id3/v2/write/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 33036cd..537dc87 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -117,11 +117,11 @@ where
 
 					let timestamp = f.timestamp;
 
-					let year = timestamp.year;
+					let year = format!("{:04}", timestamp.year);
 					new_frames.push(Frame::Text(TextInformationFrame::new(
 						FrameId::Valid("TYER".into()),
 						f.encoding.to_id3v23(),
-						year.to_string(),
+						year,
 					)));
 
 					if let (Some(month), Some(day)) = (timestamp.month, timestamp.day) {
-- 
2.43.0


From f77b36ddc31026ebdcdce0af8b70ceb18a182fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 088/113] fix: Store the additional information of ID3v2 frames
 in the order of the specification, and leave encrypted frames compressed

---
 lofty/src/id3/v2/frame/read.rs  | 185 +++++++++++++++++---------------
 lofty/src/id3/v2/write/frame.rs |  39 ++++---
 2 files changed, 121 insertions(+), 103 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index d072237..83c7a9c 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -12,8 +12,6 @@ use crate::macros::try_vec;
 use std::borrow::Cow;
 use std::io::Read;
 
-use byteorder::{BigEndian, ReadBytesExt};
-
 pub(crate) enum ParsedFrame<'a> {
 	Next(Frame<'a>),
 	Skip,
@@ -79,61 +77,7 @@ impl ParsedFrame<'static> {
 			return Ok(Self::Skip);
 		}
 
-		// Get the encryption method symbol
-		if let Some(enc) = flags.encryption.as_mut() {
-			log::trace!("Reading encryption method symbol");
-
-			if size < 1 {
-				return Err(FrameParseError::undersized(id));
-			}
-
-			match reader.read_u8() {
-				Ok(sym) => *enc = sym,
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			}
-
-			size -= 1;
-		}
-
-		// Get the group identifier
-		if let Some(group) = flags.grouping_identity.as_mut() {
-			log::trace!("Reading group identifier");
-
-			if size < 1 {
-				return Err(FrameParseError::undersized(id));
-			}
-
-			match reader.read_u8() {
-				Ok(sym) => *group = sym,
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			}
-
-			size -= 1;
-		}
-
-		// Get the real data length
-		if flags.data_length_indicator.is_some() || flags.compression {
-			log::trace!("Reading data length indicator");
-
-			if size < 4 {
-				return Err(FrameParseError::undersized(id));
-			}
-
-			// For some reason, no one can follow the spec, so while a data length indicator is *written*
-			// the flag **isn't always set**
-			let len = match reader.read_u32::<BigEndian>() {
-				Ok(len) => len.unsynch(),
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			};
-			flags.data_length_indicator = Some(len);
-			size -= 4;
-		}
+		read_additional_info(reader, &id, &mut flags, &mut size, version)?;
 
 		// Frames must have at least 1 byte, *after* all of the additional data flags can provide
 		if size == 0 {
@@ -164,17 +108,33 @@ impl ParsedFrame<'static> {
 	where
 		R: Read,
 	{
-		// It seems like the flags are applied in the order:
+		// The flags are applied in the order:
 		//
-		// unsynchronization -> compression -> encryption
+		// compression -> encryption -> unsynchronization
 		//
-		// Which all have their own needs, so this gets a little messy...
+		// There is nothing we can do with the content of an encrypted frame, so it's left compressed.
 		match flags {
 			// Possible combinations:
 			//
-			// * unsynchronized + compressed + encrypted
-			// * unsynchronized + compressed
 			// * unsynchronized + encrypted
+			// * unsynchronized + encrypted + compressed
+			// * encrypted
+			// * encrypted + compressed
+			FrameFlags {
+				encryption: Some(_),
+				unsynchronisation,
+				..
+			} => {
+				if unsynchronisation {
+					let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
+					return handle_encryption(&mut unsynchronized_reader, size, id, flags, version);
+				}
+
+				return handle_encryption(&mut reader, size, id, flags, version);
+			},
+			// Possible combinations:
+			//
+			// * unsynchronized + compressed
 			// * unsynchronized
 			FrameFlags {
 				unsynchronisation: true,
@@ -184,11 +144,6 @@ impl ParsedFrame<'static> {
 
 				if flags.compression {
 					let mut compression_reader = handle_compression(unsynchronized_reader)?;
-
-					if flags.encryption.is_some() {
-						return handle_encryption(&mut compression_reader, size, id, flags);
-					}
-
 					return parse_frame(
 						&mut compression_reader,
 						size,
@@ -199,10 +154,6 @@ impl ParsedFrame<'static> {
 					);
 				}
 
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut unsynchronized_reader, size, id, flags);
-				}
-
 				return parse_frame(
 					&mut unsynchronized_reader,
 					size,
@@ -214,17 +165,11 @@ impl ParsedFrame<'static> {
 			},
 			// Possible combinations:
 			//
-			// * compressed + encrypted
 			// * compressed
 			FrameFlags {
 				compression: true, ..
 			} => {
 				let mut compression_reader = handle_compression(reader)?;
-
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut compression_reader, size, id, flags);
-				}
-
 				return parse_frame(
 					&mut compression_reader,
 					size,
@@ -234,15 +179,6 @@ impl ParsedFrame<'static> {
 					parse_options,
 				);
 			},
-			// Possible combinations:
-			//
-			// * encrypted
-			FrameFlags {
-				encryption: Some(_),
-				..
-			} => {
-				return handle_encryption(&mut reader, size, id, flags);
-			},
 			// Everything else that doesn't have special flags
 			_ => {
 				return parse_frame(&mut reader, size, id, flags, version, parse_options);
@@ -251,6 +187,73 @@ impl ParsedFrame<'static> {
 	}
 }
 
+/// Read the information that certain flags add to the frame header
+///
+/// It is stored in the order of the flags, which differs between versions:
+///
+/// * ID3v2.3: decompressed size, encryption method symbol, group identifier
+/// * ID3v2.4: group identifier, encryption method symbol, data length indicator
+fn read_additional_info<R>(
+	reader: &mut R,
+	id: &FrameId<'static>,
+	flags: &mut FrameFlags,
+	size: &mut u32,
+	version: Id3v2Version,
+) -> Result<(), FrameParseError>
+where
+	R: Read + ?Sized,
+{
+	fn take<const N: usize>(
+		reader: &mut (impl Read + ?Sized),
+		id: &FrameId<'static>,
+		size: &mut u32,
+	) -> Result<[u8; N], FrameParseError> {
+		let Some(remaining) = size.checked_sub(N as u32) else {
+			return Err(FrameParseError::undersized(id.clone()));
+		};
+
+		let mut bytes = [0; N];
+		if let Err(e) = reader.read_exact(&mut bytes) {
+			return Err(FrameParseError::io(Some(id.clone()), e));
+		}
+
+		*size = remaining;
+		Ok(bytes)
+	}
+
+	if version == Id3v2Version::V3 {
+		if flags.compression {
+			log::trace!("Reading decompressed size");
+			let len = u32::from_be_bytes(take(reader, id, size)?);
+			flags.data_length_indicator = Some(len);
+		}
+	} else if let Some(group) = flags.grouping_identity.as_mut() {
+		log::trace!("Reading group identifier");
+		[*group] = take(reader, id, size)?;
+	}
+
+	if let Some(enc) = flags.encryption.as_mut() {
+		log::trace!("Reading encryption method symbol");
+		[*enc] = take(reader, id, size)?;
+	}
+
+	if version == Id3v2Version::V3 {
+		if let Some(group) = flags.grouping_identity.as_mut() {
+			log::trace!("Reading group identifier");
+			[*group] = take(reader, id, size)?;
+		}
+	} else if flags.data_length_indicator.is_some() || flags.compression {
+		log::trace!("Reading data length indicator");
+
+		// For some reason, no one can follow the spec, so while a data length indicator is *written*
+		// the flag **isn't always set**
+		let len = u32::from_be_bytes(take(reader, id, size)?).unsynch();
+		flags.data_length_indicator = Some(len);
+	}
+
+	Ok(())
+}
+
 #[cfg(feature = "id3v2_compression_support")]
 #[allow(clippy::unnecessary_wraps)]
 fn handle_compression<R: Read>(reader: R) -> Result<flate2::read::ZlibDecoder<R>, FrameParseError> {
@@ -267,10 +270,16 @@ fn handle_encryption<R: Read>(
 	reader: &mut R,
 	size: u32,
 	id: FrameId<'static>,
-	flags: FrameFlags,
+	mut flags: FrameFlags,
+	version: Id3v2Version,
 ) -> Result<ParsedFrame<'static>, FrameParseError> {
 	if flags.data_length_indicator.is_none() {
-		return Err(FrameParseError::missing_data_length_indicator(id));
+		// There are no data length indicators in ID3v2.3
+		if version > Id3v2Version::V3 {
+			return Err(FrameParseError::missing_data_length_indicator(id));
+		}
+
+		flags.data_length_indicator = Some(size);
 	}
 
 	let mut content;
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 537dc87..f70aec7 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -313,14 +313,14 @@ where
 
 	// The content is always written as-is, without any of these transformations
 	flags.unsynchronisation = false;
-	flags.compression = false;
 
 	if flags.encryption.is_some() {
 		write_encrypted(writer, name, value, flags, write_options)?;
 		return Ok(());
 	}
 
-	// Only written for encrypted frames
+	// Only written for encrypted frames, whose content is opaque
+	flags.compression = false;
 	flags.data_length_indicator = None;
 
 	let len = value.len() as u32;
@@ -367,23 +367,32 @@ where
 	if let Some(mut len) = flags.data_length_indicator
 		&& len > 0
 	{
-		// Encryption method symbol (1) + data length indicator (4)
-		let mut frame_len = value.len() as u32 + 5;
-		if flags.grouping_identity.is_some() {
-			frame_len += 1;
-		}
-
-		write_frame_header(writer, name, frame_len, flags, write_options)?;
-		if !write_options.use_id3v23 {
+		let group = flags.grouping_identity;
+
+		// The order in which the additional information is stored differs between versions:
+		//
+		// * ID3v2.3: decompressed size (if compressed), encryption method symbol, group identifier
+		// * ID3v2.4: group identifier, encryption method symbol, data length indicator
+		let mut additional_info = Vec::with_capacity(6);
+		if write_options.use_id3v23 {
+			if flags.compression {
+				additional_info.extend_from_slice(&len.to_be_bytes());
+			}
+
+			additional_info.push(method_symbol);
+			additional_info.extend(group);
+		} else {
 			len = len.synch()?;
-		}
 
-		writer.write_u8(method_symbol)?;
-		if let Some(grouping_identity) = flags.grouping_identity {
-			writer.write_u8(grouping_identity)?;
+			additional_info.extend(group);
+			additional_info.push(method_symbol);
+			additional_info.extend_from_slice(&len.to_be_bytes());
 		}
 
-		writer.write_u32::<BigEndian>(len)?;
+		let frame_len = (value.len() + additional_info.len()) as u32;
+		write_frame_header(writer, name, frame_len, flags, write_options)?;
+
+		writer.write_all(&additional_info)?;
 		writer.write_all(value)?;
 
 		return Ok(());
-- 
2.43.0


From a1d6ffac1eca04acb86b0ea5140d06fb8aabc58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 089/113] fix: Compute the length of MPEG Layer I frames in
 whole slots

---
 lofty/src/mpeg/header.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index ef3c680..f1e2cca 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -314,8 +314,12 @@ impl Header {
 
 		header.data_start = SIDE_INFORMATION_SIZES[version_index][header.channel_mode as usize] + 4;
 		header.samples = SAMPLES[layer_index][version_index];
-		header.len =
-			(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding;
+
+		// The length is a whole number of slots, with one extra slot if the frame is padded
+		let slot_size = u32::from(PADDING_SIZES[layer_index]);
+		let slots =
+			(u32::from(header.samples) * header.bitrate * 125 / slot_size) / header.sample_rate;
+		header.len = (slots * slot_size) + padding;
 
 		Some(header)
 	}
-- 
2.43.0


From a6501d7c33fa6e342aa3983b745ae0ea620c993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 090/113] fix: Find the last MPEG frame across the reverse
 search windows

---
 lofty/src/mpeg/header.rs     | 6 ++++++
 lofty/src/mpeg/properties.rs | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index f1e2cca..b077c36 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -49,6 +49,7 @@ where
 // Unlike `search_for_frame_sync`, since this has the `Seek` bound, it will seek the reader
 // back to the start of the header.
 const REV_FRAME_SEARCH_BOUNDS: u64 = 1024;
+pub(super) const FRAME_HEADER_SIZE: u64 = 4;
 pub(super) fn rev_search_for_frame_header<R>(
 	input: &mut R,
 	pos: &mut u64,
@@ -97,6 +98,11 @@ where
 		return Ok(header);
 	}
 
+	// A header may start in this window and end in the one that was searched before
+	if *pos > 0 {
+		*pos += FRAME_HEADER_SIZE - 1;
+	}
+
 	Ok(None)
 }
 
diff --git a/lofty/src/mpeg/properties.rs b/lofty/src/mpeg/properties.rs
index e887149..a5ff7d7 100644
--- a/lofty/src/mpeg/properties.rs
+++ b/lofty/src/mpeg/properties.rs
@@ -1,4 +1,6 @@
-use super::header::{ChannelMode, Emphasis, Header, Layer, MpegVersion, VbrHeader, VbrHeaderType};
+use super::header::{
+	ChannelMode, Emphasis, FRAME_HEADER_SIZE, Header, Layer, MpegVersion, VbrHeader, VbrHeaderType,
+};
 use crate::mpeg::error::MpegParseError;
 use crate::mpeg::header::rev_search_for_frame_header;
 use crate::properties::{ChannelMask, FileProperties};
@@ -200,6 +202,11 @@ where
 					last_frame = Some(header);
 					break;
 				}
+
+				// The header of the actual frame may overlap with the one that was found
+				if pos > 0 {
+					pos += FRAME_HEADER_SIZE - 1;
+				}
 			},
 			// Encountered some IO error, just break
 			Err(_) => break,
-- 
2.43.0


From 7fb8fd161ce1546de78093011a2ac87721fc28a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 091/113] fix: Look up VBRI headers at their fixed offset and
 accept MPEG streams too short for a VBR header

---
 lofty/src/mpeg/read.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 078efa6..3d2a46d 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -1,4 +1,6 @@
-use super::header::{Header, HeaderCmpResult, VbrHeader, cmp_header, search_for_frame_sync};
+use super::header::{
+	Header, HeaderCmpResult, VbrHeader, VbrHeaderType, cmp_header, search_for_frame_sync,
+};
 use super::{MpegFile, MpegProperties};
 use crate::ape::tag::header::read_ape_header;
 use crate::config::{ParseOptions, ParsingMode};
@@ -208,12 +210,14 @@ where
 
 		// Try to read a Xing header
 		let xing_header_location = first_frame_offset + u64::from(first_frame_header.data_start);
-		reader.seek(SeekFrom::Start(xing_header_location))?;
+		let mut vbr_header = read_vbr_header(reader, xing_header_location)?;
 
-		let mut xing_reader = [0; 32];
-		reader.read_exact(&mut xing_reader)?;
-
-		let xing_header = VbrHeader::read(&mut &xing_reader[..])?;
+		// Unlike the Xing header, the location of a VBRI header doesn't depend on the side information
+		let vbri_header_location = first_frame_offset + VBRI_HEADER_OFFSET;
+		if vbr_header.is_none() && vbri_header_location != xing_header_location {
+			vbr_header = read_vbr_header(reader, vbri_header_location)?
+				.filter(|header| matches!(header.ty, VbrHeaderType::Vbri));
+		}
 
 		let file_length = reader.stream_len_hack()?;
 
@@ -222,7 +226,7 @@ where
 			reader,
 			(first_frame_header, first_frame_offset),
 			last_frame_offset,
-			xing_header,
+			vbr_header,
 			file_length,
 		)?;
 	}
@@ -230,6 +234,25 @@ where
 	Ok(file)
 }
 
+// The distance between the start of a frame and its VBRI header, the frame header and 32 bytes
+const VBRI_HEADER_OFFSET: u64 = 36;
+
+fn read_vbr_header<R>(reader: &mut R, location: u64) -> Result<Option<VbrHeader>, MpegParseError>
+where
+	R: Read + Seek,
+{
+	reader.seek(SeekFrom::Start(location))?;
+
+	let mut header = Vec::with_capacity(32);
+	reader.take(32).read_to_end(&mut header)?;
+	if header.len() < 32 {
+		// The frames are too small to hold one
+		return Ok(None);
+	}
+
+	VbrHeader::read(&mut &header[..])
+}
+
 // Searches for the next frame, comparing it to the following one
 pub(crate) fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
 where
-- 
2.43.0


From bd26236d5efacf7cc5472d4f197c11cd75d2ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 092/113] fix: Avoid a division by zero in Musepack SV7 streams
 without samples

---
 lofty/src/musepack/sv7/properties.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/musepack/sv7/properties.rs b/lofty/src/musepack/sv7/properties.rs
index 8a9460d..7b68b1b 100644
--- a/lofty/src/musepack/sv7/properties.rs
+++ b/lofty/src/musepack/sv7/properties.rs
@@ -380,6 +380,11 @@ impl MpcSv7Properties {
 				(u64::from(properties.frame_count) * MPC_FRAME_LENGTH) - MPC_DECODER_SYNTH_DELAY;
 		}
 
+		if total_samples == 0 {
+			log::warn!("Sample count is 0, unable to calculate bitrate");
+			return Ok(properties);
+		}
+
 		properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
 			/ (total_samples * 1000)) as u32;
 
-- 
2.43.0


From 50cfd8fad77687959e80ba51f7f7f97bf6c27aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 093/113] fix: Read the 40-bit total sample count of WavPack
 streams

---
 lofty/src/wavpack/properties.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f50e037..2242940 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -129,7 +129,7 @@ where
 	let mut properties = WavPackProperties::default();
 
 	let mut offset = 0;
-	let mut total_samples = 0;
+	let mut total_samples = Some(0);
 	loop {
 		reader.seek(SeekFrom::Start(offset))?;
 
@@ -215,10 +215,10 @@ where
 	}
 
 	// TODO: Support unknown sample counts in WavPack
-	if total_samples == u32::MAX {
+	let Some(total_samples) = total_samples else {
 		log::warn!("Unable to calculate duration, unknown sample counts are not yet supported");
 		return Ok(properties);
-	}
+	};
 
 	if total_samples == 0 || properties.sample_rate == 0 {
 		if parse_mode == ParsingMode::Strict {
@@ -229,7 +229,7 @@ where
 		return Ok(properties);
 	}
 
-	let length = f64::from(total_samples) * 1000. / f64::from(properties.sample_rate);
+	let length = total_samples as f64 * 1000. / f64::from(properties.sample_rate);
 	properties.duration = Duration::from_millis((length + 0.5) as u64);
 	properties.audio_bitrate = (stream_length as f64 * 8. / length + 0.5) as u32;
 
@@ -246,7 +246,8 @@ const WV_BLOCK_MAX_SIZE: u32 = 1_048_576;
 struct WVHeader {
 	version: u16,
 	block_size: u32,
-	total_samples: u32,
+	// `None` if the sample count is unknown
+	total_samples: Option<u64>,
 	samples: u32,
 	flags: u32,
 }
@@ -273,13 +274,16 @@ where
 
 	let version = reader.read_u16::<LittleEndian>()?;
 
-	// Skip 2 bytes
-	//
-	// Track number (1)
-	// Track sub index (1)
-	reader.seek(SeekFrom::Current(2))?;
+	// Upper 8 bits of the block index
+	reader.seek(SeekFrom::Current(1))?;
+
+	let total_samples_upper = u64::from(reader.read_u8()?);
+	let total_samples_lower = reader.read_u32::<LittleEndian>()?;
 
-	let total_samples = reader.read_u32::<LittleEndian>()?;
+	// All bits being set in the lower part marks an unknown sample count, so that value is skipped
+	let total_samples = (total_samples_lower != u32::MAX).then(|| {
+		(total_samples_upper << 32) + u64::from(total_samples_lower) - total_samples_upper
+	});
 	let _block_idx = reader.seek(SeekFrom::Current(4))?;
 	let samples = reader.read_u32::<LittleEndian>()?;
 	let flags = reader.read_u32::<LittleEndian>()?;
-- 
2.43.0


From ca370dd691e4b6dbea8ace2ebf2937daaf39311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 094/113] fix: Read the channel information of multichannel
 WavPack streams

---
 lofty/src/wavpack/properties.rs | 88 ++++++++++++++-------------------
 1 file changed, 36 insertions(+), 52 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index 2242940..2e1b6f4 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -141,12 +141,21 @@ where
 		}
 
 		let flags = block_header.flags;
+		let is_initial = flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK;
+
+		// Only the initial block of a sequence is guaranteed to describe the stream
 		let sample_rate_idx = ((flags >> 23) & 0xF) as usize;
-		properties.sample_rate = SAMPLE_RATES[sample_rate_idx];
+		if is_initial {
+			properties.sample_rate = SAMPLE_RATES[sample_rate_idx];
+		}
 
-		// In the case of non-standard sample rates and DSD audio, we need to actually read the
-		// block to get the sample rate
-		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD {
+		// In the case of non-standard sample rates, DSD audio, and multichannel streams, we need to actually
+		// read the block to get the sample rate and channels
+		if is_initial
+			&& (sample_rate_idx == 15
+				|| flags & FLAG_DSD == FLAG_DSD
+				|| flags & FLAG_FINAL_BLOCK == 0)
+		{
 			let mut block_contents = try_vec![0; (block_header.block_size - 24) as usize]?;
 			reader.read_exact(&mut block_contents)?;
 
@@ -170,7 +179,7 @@ where
 			}
 		}
 
-		if flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK {
+		if is_initial {
 			if block_header.version < MIN_STREAM_VERSION
 				|| block_header.version > MAX_STREAM_VERSION
 			{
@@ -368,54 +377,24 @@ fn get_extended_meta_info(
 				properties.sample_rate = properties.sample_rate.wrapping_mul(rate_multiplier);
 			},
 			ID_MULTICHANNEL => {
-				if size <= 1 {
-					return Err(WavPackParseError::message(
-						"unable to extract channel information",
-					));
-				}
-
-				properties.channels = u16::from(reader.read_u8()?);
-
-				// size - (id length + channel length)
-				let s = size - 2;
-				match s {
-					0 => {
-						let channel_mask = reader.read_u8()?;
-						size -= 1;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
-					},
-					1 => {
-						let channel_mask = reader.read_u16::<LittleEndian>()?;
-						size -= 2;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
+				let (content, rem) = reader.split_at(size as usize);
+				*reader = rem;
+
+				let channel_mask;
+				match *content {
+					// Streams with more than 255 channels:
+					//
+					// Channel count - 1 (8, lower bits)
+					// Stream count - 1 (8, lower bits)
+					// Upper 4 bits of the stream count, upper 4 bits of the channel count
+					[channels_lo, _, hi, ref mask @ ..] if mask.len() == 3 || mask.len() == 4 => {
+						properties.channels =
+							(u16::from(channels_lo) | u16::from(hi & 0xF) << 8) + 1;
+						channel_mask = mask;
 					},
-					2 => {
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 3;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					3 => {
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 4;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					4 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 4;
-
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					5 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 5;
-
-						properties.channel_mask = ChannelMask(channel_mask);
+					[channels, ref mask @ ..] if !mask.is_empty() && mask.len() <= 4 => {
+						properties.channels = u16::from(channels);
+						channel_mask = mask;
 					},
 					_ => {
 						return Err(WavPackParseError::message(
@@ -423,6 +402,11 @@ fn get_extended_meta_info(
 						));
 					},
 				}
+
+				let mut mask_bytes = [0; 4];
+				mask_bytes[..channel_mask.len()].copy_from_slice(channel_mask);
+				properties.channel_mask = ChannelMask(u32::from_le_bytes(mask_bytes));
+				size = 0;
 			},
 			_ => {},
 		}
-- 
2.43.0


From 0d0fa29eb41d0b50010340ec05afc2b5cc94e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 095/113] fix: Map MPEG-4 channel configurations to channel
 counts

---
 lofty/src/aac/properties.rs | 10 +++++-----
 lofty/src/mp4/mod.rs        |  2 +-
 lofty/src/mp4/properties.rs | 14 +++++++++++++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lofty/src/aac/properties.rs b/lofty/src/aac/properties.rs
index 40c0b6e..d0857a5 100644
--- a/lofty/src/aac/properties.rs
+++ b/lofty/src/aac/properties.rs
@@ -1,5 +1,5 @@
 use crate::aac::header::ADTSHeader;
-use crate::mp4::AudioObjectType;
+use crate::mp4::{AudioObjectType, channel_count};
 use crate::mpeg::header::MpegVersion;
 use crate::properties::{ChannelMask, FileProperties};
 
@@ -106,14 +106,14 @@ pub(super) fn read_properties(
 	properties.version = first_frame.version;
 	properties.audio_object_type = first_frame.audio_object_ty;
 	properties.sample_rate = first_frame.sample_rate;
-	properties.channels = first_frame.channels;
+	properties.channels = channel_count(first_frame.channels);
 
-	match ChannelMask::from_mp4_channels(properties.channels) {
+	match ChannelMask::from_mp4_channels(first_frame.channels) {
 		Some(mask) => properties.channel_mask = Some(mask),
 		None => {
 			log::warn!(
-				"Unable to create channel mask, invalid channel count: {}",
-				properties.channels
+				"Unable to create channel mask, invalid channel configuration: {}",
+				first_frame.channels
 			);
 		},
 	}
diff --git a/lofty/src/mp4/mod.rs b/lofty/src/mp4/mod.rs
index 2e41681..b2febeb 100644
--- a/lofty/src/mp4/mod.rs
+++ b/lofty/src/mp4/mod.rs
@@ -29,7 +29,7 @@ pub use ilst::advisory_rating::AdvisoryRating;
 pub use ilst::atom::{Atom, AtomData};
 pub use ilst::data_type::DataType;
 
-pub(crate) use properties::SAMPLE_RATES;
+pub(crate) use properties::{SAMPLE_RATES, channel_count};
 
 /// An MP4 file
 #[derive(LoftyFile)]
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index be978a7..0a48a4a 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -778,6 +778,18 @@ pub(crate) const SAMPLE_RATES: [u32; 15] = [
 	96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0,
 ];
 
+/// Get the number of channels of an MPEG-4 channel configuration
+///
+/// See <https://wiki.multimedia.cx/index.php/MPEG-4_Audio#Channel_Configurations>
+pub(crate) const fn channel_count(channel_configuration: u8) -> u8 {
+	match channel_configuration {
+		7 | 12 | 14 => 8,
+		11 => 7,
+		13 => 24,
+		_ => channel_configuration,
+	}
+}
+
 fn mp4a_properties<R>(
 	stsd: &mut AtomReader<R>,
 	properties: &mut Mp4Properties,
@@ -910,7 +922,7 @@ where
 				// The channel configuration isn't always set, at least when testing with
 				// the Audio Lossless Coding reference software
 				if channel_conf > 0 {
-					properties.channels = Some(channel_conf);
+					properties.channels = Some(channel_count(channel_conf));
 				}
 
 				// We just check for ALS here, might extend it for more codes eventually
-- 
2.43.0


From 569f3fea4b6890e408229618c26abb0d11e3ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 096/113] fix: Use the specified speakers for MPEG-4 channel
 configuration 4

---
 lofty/src/properties/channel_mask.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lofty/src/properties/channel_mask.rs b/lofty/src/properties/channel_mask.rs
index 89fa527..48cfbdf 100644
--- a/lofty/src/properties/channel_mask.rs
+++ b/lofty/src/properties/channel_mask.rs
@@ -137,7 +137,7 @@ impl ChannelMask {
 		}
 	}
 
-	/// Create a channel mask from the number of channels in an MP4 file
+	/// Create a channel mask from the channel configuration of an MP4 file
 	///
 	/// See <https://wiki.multimedia.cx/index.php/MPEG-4_Audio#Channel_Configurations> for the mapping.
 	pub const fn from_mp4_channels(channels: u8) -> Option<Self> {
@@ -146,10 +146,7 @@ impl ChannelMask {
 			2 => Some(Self::stereo()),
 			3 => Some(Self::linear_surround()),
 			4 => Some(Self(
-				Self::FRONT_LEFT.bits()
-					| Self::FRONT_RIGHT.bits()
-					| Self::BACK_LEFT.bits()
-					| Self::BACK_RIGHT.bits(),
+				Self::linear_surround().bits() | Self::BACK_CENTER.bits(),
 			)),
 			5 => Some(Self(
 				Self::linear_surround().bits() | Self::BACK_LEFT.bits() | Self::BACK_RIGHT.bits(),
-- 
2.43.0


From 13b3cf97c180fe8a44d7d6afacbadf1fdc008f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 097/113] fix: Apply the allocation limit to the content of
 ID3v2 frames

---
 lofty/src/id3/v2/frame/read.rs | 69 ++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 83c7a9c..cd6d664 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -1,6 +1,6 @@
 use super::Frame;
 use super::header::parse::{parse_header, parse_v2_header};
-use crate::config::{ParseOptions, ParsingMode};
+use crate::config::{ParseOptions, ParsingMode, global_options};
 use crate::id3::v2::error::FrameParseError;
 use crate::id3::v2::frame::content::parse_content;
 use crate::id3::v2::header::Id3v2Version;
@@ -8,6 +8,7 @@ use crate::id3::v2::tag::ATTACHED_PICTURE_ID;
 use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
 use crate::id3::v2::{BinaryFrame, FrameFlags, FrameHeader, FrameId, Id3v2TagFlags};
 use crate::macros::try_vec;
+use crate::util::alloc::AllocationError;
 
 use std::borrow::Cow;
 use std::io::Read;
@@ -84,6 +85,10 @@ impl ParsedFrame<'static> {
 			return Err(FrameParseError::undersized(id));
 		}
 
+		if u64::from(size) > allocation_limit() {
+			return Err(AllocationError::LimitExceeded.into());
+		}
+
 		// Restrict the reader to the frame content
 		let mut content_reader = reader.take(u64::from(size));
 		let frame =
@@ -143,9 +148,9 @@ impl ParsedFrame<'static> {
 				let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
 
 				if flags.compression {
-					let mut compression_reader = handle_compression(unsynchronized_reader)?;
-					return parse_frame(
-						&mut compression_reader,
+					let compression_reader = handle_compression(unsynchronized_reader)?;
+					return parse_compressed_frame(
+						compression_reader,
 						size,
 						id,
 						flags,
@@ -169,9 +174,9 @@ impl ParsedFrame<'static> {
 			FrameFlags {
 				compression: true, ..
 			} => {
-				let mut compression_reader = handle_compression(reader)?;
-				return parse_frame(
-					&mut compression_reader,
+				let compression_reader = handle_compression(reader)?;
+				return parse_compressed_frame(
+					compression_reader,
 					size,
 					id,
 					flags,
@@ -326,6 +331,56 @@ fn parse_frame<R: Read>(
 	}
 }
 
+fn allocation_limit() -> u64 {
+	unsafe { global_options().allocation_limit as u64 }
+}
+
+/// Restricts a reader to the allocation limit
+struct LimitedReader<R> {
+	inner: R,
+	remaining: u64,
+	exceeded: bool,
+}
+
+impl<R: Read> Read for LimitedReader<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let bytes_read = self.inner.read(buf)?;
+		match self.remaining.checked_sub(bytes_read as u64) {
+			Some(remaining) if !self.exceeded => {
+				self.remaining = remaining;
+				Ok(bytes_read)
+			},
+			_ => {
+				self.exceeded = true;
+				Err(std::io::Error::other(AllocationError::LimitExceeded))
+			},
+		}
+	}
+}
+
+// The decompressed content can be far larger than the frame itself
+fn parse_compressed_frame<R: Read>(
+	reader: R,
+	size: u32,
+	id: FrameId<'static>,
+	flags: FrameFlags,
+	version: Id3v2Version,
+	parse_options: ParseOptions,
+) -> Result<ParsedFrame<'static>, FrameParseError> {
+	let mut reader = LimitedReader {
+		inner: reader,
+		remaining: allocation_limit(),
+		exceeded: false,
+	};
+
+	let result = parse_frame(&mut reader, size, id, flags, version, parse_options);
+	if reader.exceeded {
+		return Err(AllocationError::LimitExceeded.into());
+	}
+
+	result
+}
+
 // Note that this is only ever given the full frame size.
 //
 // In the context of `ParsedFrame::read`, the reader is restricted to the frame content, so this
-- 
2.43.0


From 0b1c28afbe7855c817c79b5f362df34e0d107c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:51 +0000
Subject: [PATCH 098/113] fix: Call custom resolvers without holding the
 registry lock

---
 lofty/src/file/file_type.rs |  8 +++-----
 lofty/src/probe.rs          |  9 +++------
 lofty/src/resolve.rs        | 17 +++++++++++++++--
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index c2f6ff0..db8e8c2 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -1,5 +1,5 @@
 use crate::config::global_options;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::tag::{TagSupport, TagType};
 
 use std::ffi::OsStr;
@@ -189,10 +189,8 @@ impl FileType {
 
 		// Give custom resolvers priority
 		if unsafe { global_options().use_custom_resolvers }
-			&& let Some((ty, _)) = CUSTOM_RESOLVERS
-				.lock()
-				.ok()?
-				.iter()
+			&& let Some((ty, _)) = registered_resolvers()
+				.into_iter()
 				.find(|(_, f)| f.extension() == Some(ext.as_str()))
 		{
 			return Some(Self::Custom(ty));
diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 15cd1b4..c3c5d41 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -16,7 +16,7 @@ use crate::musepack::MpcFile;
 use crate::ogg::opus::OpusFile;
 use crate::ogg::speex::SpeexFile;
 use crate::ogg::vorbis::VorbisFile;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::wavpack::WavPackFile;
 
 use std::fs::File;
@@ -334,11 +334,8 @@ impl<R: Read + Seek> Probe<R> {
 		self.inner.seek(SeekFrom::Start(starting_position))?;
 
 		// Give custom resolvers priority
-		if unsafe { global_options().use_custom_resolvers }
-			&& let Ok(lock) = CUSTOM_RESOLVERS.lock()
-		{
-			#[allow(clippy::significant_drop_in_scrutinee)]
-			for resolve in lock.values() {
+		if unsafe { global_options().use_custom_resolvers } {
+			for (_, resolve) in registered_resolvers() {
 				if let ret @ Some(_) = resolve.guess(&buf[..buf_len]) {
 					return Ok(ret);
 				}
diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index a37c99e..9f18e5c 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -35,8 +35,7 @@ pub trait FileResolver: Send + Sync + AudioFile {
 // Just broken out to its own type to make `CUSTOM_RESOLVER`'s type shorter :)
 type ResolverMap = HashMap<&'static str, &'static dyn ObjectSafeFileResolver>;
 
-pub(crate) static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> =
-	LazyLock::new(Default::default);
+static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> = LazyLock::new(Default::default);
 
 pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFileResolver {
 	// NOTE: The lock must be released before panicking, otherwise it'd be poisoned for every other user
@@ -52,6 +51,20 @@ pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFile
 	);
 }
 
+/// All of the registered resolvers, with their names
+///
+/// Resolvers are user code, so they **must not** be called with [`CUSTOM_RESOLVERS`] locked. They could use
+/// the resolvers themselves, or panic, poisoning the lock for every other user.
+pub(crate) fn registered_resolvers() -> Vec<(&'static str, &'static dyn ObjectSafeFileResolver)> {
+	let Ok(lock) = CUSTOM_RESOLVERS.lock() else {
+		return Vec::new();
+	};
+
+	lock.iter()
+		.map(|(name, resolver)| (*name, *resolver))
+		.collect()
+}
+
 // A `Read + Seek` supertrait for use in [`ObjectSafeFileResolver::read_from`]
 pub(crate) trait SeekRead: Read + Seek {}
 impl<T: Seek + Read> SeekRead for T {}
-- 
2.43.0


From 43778f5fb9be24618f69fc3a4a4bc546af4b5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 099/113] fix: Write the number of bits an RVA2 peak takes up

---
 .../src/id3/v2/items/relative_volume_adjustment_frame.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 17cc151..e53f0f5 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -257,14 +257,11 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 			}
 
 			if let Some(peak) = &info.peak_volume {
-				if peak.len() > expected_peak_byte_length as usize {
+				if peak.len() != expected_peak_byte_length as usize {
 					// Recalculate bits representing peak
-					bits_representing_peak = 0;
-
+					//
 					// Max out at 255 bits
-					for b in peak.iter().copied().take(32) {
-						bits_representing_peak += b.leading_ones() as u8;
-					}
+					bits_representing_peak = u8::try_from(peak.len() * 8).unwrap_or(u8::MAX);
 				}
 
 				content.push(bits_representing_peak);
-- 
2.43.0


From 0366642bdb1150bc6deb9dd00c5e6c6a7c42ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 100/113] fix: Report no speaker positions for Opus mapping
 families without them

---
 lofty/src/ogg/opus/properties.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index 785856c..c1722e0 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -128,9 +128,11 @@ where
 		));
 	}
 
-	// Channels beyond the eighth have no defined meaning
-	properties.channel_mask =
-		ChannelMask::from_opus_channels(properties.channels).unwrap_or_default();
+	// The channels of the other mapping families (ambisonics, discrete channels) have no speaker position
+	if channel_mapping_family < 2 {
+		properties.channel_mask =
+			ChannelMask::from_opus_channels(properties.channels).unwrap_or_default();
+	}
 
 	// The audio follows the pages of the header packets
 	let audio_start = data.stream_position()?;
-- 
2.43.0


From 033a19ed99297af39c4832980be4cb66a01bf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:12 +0000
Subject: [PATCH 101/113] fix: Upgrade the ID3v2.2 frames TOA and TXT to TOPE
 and TEXT

---
 lofty/src/id3/v2/util/upgrade.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/util/upgrade.rs b/lofty/src/id3/v2/util/upgrade.rs
index f3b7e0b..c118759 100644
--- a/lofty/src/id3/v2/util/upgrade.rs
+++ b/lofty/src/id3/v2/util/upgrade.rs
@@ -91,7 +91,7 @@ gen_upgrades!(
 		"TLA" => "TLAN",
 		"TLE" => "TLEN",
 		"TMT" => "TMED",
-		"TOA" => "TOAL",
+		"TOA" => "TOPE",
 		"TOF" => "TOFN",
 		"TOL" => "TOLY",
 		"TOR" => "TDOR",
@@ -114,7 +114,7 @@ gen_upgrades!(
 		"TT1" => "TIT1",
 		"TT2" => "TIT2",
 		"TT3" => "TIT3",
-		"TXT" => "TOLY",
+		"TXT" => "TEXT",
 		"TXX" => "TXXX",
 		"TYE" => "TDRC",
 		"UFI" => "UFID",
-- 
2.43.0


From 2733023651ad096aef1b779f379147d2b3e662de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 102/113] fix: Keep full dates in ID3v2.3 tags, and dates no
 timestamp can hold

---
 lofty/src/id3/v2/read.rs | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index 0edbd37..eb99440 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -72,6 +72,7 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 
 	// This is not a TYER frame
 	if year_frame.timestamp.month.is_some() {
+		tag.insert(Frame::Timestamp(year_frame));
 		return;
 	}
 
@@ -87,7 +88,7 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 			break 'build;
 		};
 
-		if date.len() != 4 || !date.is_ascii() {
+		if date.len() != 4 || !date.bytes().all(|b| b.is_ascii_digit()) {
 			log::warn!("Invalid TDAT frame, retaining.");
 			break 'build;
 		}
@@ -97,15 +98,24 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 			break 'build;
 		};
 
-		tdrc.month = Some(month);
-		tdrc.day = Some(day);
+		let dated = Timestamp {
+			month: Some(month),
+			day: Some(day),
+			..tdrc
+		};
+		if dated.verify().is_err() {
+			log::warn!("Invalid TDAT frame, retaining.");
+			break 'build;
+		}
+
+		tdrc = dated;
 		date_used = true;
 
 		let Some(time) = tag.get_text(&TIME) else {
 			break 'build;
 		};
 
-		if time.len() != 4 || !time.is_ascii() {
+		if time.len() != 4 || !time.bytes().all(|b| b.is_ascii_digit()) {
 			log::warn!("Invalid TIME frame, retaining.");
 			break 'build;
 		}
@@ -115,16 +125,24 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 			break 'build;
 		};
 
-		tdrc.hour = Some(hour);
-		tdrc.minute = Some(minute);
+		let timed = Timestamp {
+			hour: Some(hour),
+			minute: Some(minute),
+			..tdrc
+		};
+		if timed.verify().is_err() {
+			log::warn!("Invalid TIME frame, retaining.");
+			break 'build;
+		}
+
+		tdrc = timed;
 		time_used = true;
 	}
 
-	tag.insert(Frame::Timestamp(TimestampFrame::new(
-		FrameId::Valid(Cow::Borrowed("TDRC")),
-		year_frame.encoding,
-		tdrc,
-	)));
+	tag.insert(Frame::Timestamp(TimestampFrame {
+		timestamp: tdrc,
+		..year_frame
+	}));
 
 	if date_used {
 		let _ = tag.remove(&TDAT);
-- 
2.43.0


From 8db0340447813829b98fc09ef7425fc3d378ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 103/113] fix: Read freeform MP4 atoms with extended sizes

---
 lofty/src/mp4/atom_info.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 363cf9f..a0b0fc5 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -239,7 +239,7 @@ impl AtomInfo {
 				return Err(NotEnoughDataError::new(Some(ATOM_HEADER_LEN as usize)).into());
 			}
 
-			atom_ident = parse_freeform(reader, len - ATOM_HEADER_LEN, parse_mode)?;
+			atom_ident = parse_freeform(reader, len - header_len, parse_mode)?;
 		} else {
 			atom_ident = AtomIdent::Fourcc(identifier);
 		}
@@ -298,53 +298,48 @@ where
 
 fn freeform_chunk<R>(
 	data: &mut R,
-	name: &[u8],
+	name: &[u8; 4],
 	reader_size: &mut u64,
 	parse_mode: ParsingMode,
 ) -> Result<String, AtomParseError>
 where
 	R: Read + Seek,
 {
-	let Some(AtomInfo {
-		ident: AtomIdent::Fourcc(fourcc),
-		len,
-		..
-	}) = AtomInfo::read_inner(data, *reader_size, parse_mode, true)?
-	else {
+	let Some(atom) = AtomInfo::read_inner(data, *reader_size, parse_mode, true)? else {
 		return Err(AtomParseError::message(
 			None,
 			"found freeform identifier \"----\" with no trailing \"mean\" or \"name\" atoms",
 		));
 	};
 
-	if fourcc != name {
+	// Always a fourcc, since freeform identifiers cannot be nested
+	if atom.ident != AtomIdent::Fourcc(*name) {
 		return Err(AtomParseError::message(
 			None,
 			format!(
 				"expected \"{}\" chunk, found \"{}\"",
 				name.escape_ascii(),
-				fourcc.escape_ascii()
+				atom.ident
 			),
 		));
 	}
 
-	if len < 12 {
+	// Version (1)
+	// Flags (3)
+	let Some(content_len) = atom.content_len().checked_sub(4) else {
 		return Err(NotEnoughDataError::new(Some(12)).into());
-	}
+	};
 
-	if len > *reader_size {
+	if atom.len > *reader_size {
 		return Err(SizeMismatchError.into());
 	}
 
-	// Version (1)
-	// Flags (3)
 	data.seek(SeekFrom::Current(4))?;
 
-	// Already read the size (4) + identifier (4) + version/flags (4)
-	let mut content = try_vec![0; (len - 12) as usize]?;
+	let mut content = try_vec![0; content_len as usize]?;
 	data.read_exact(&mut content)?;
 
-	*reader_size -= len;
+	*reader_size -= atom.len;
 
 	utf8_decode(content).map_err(Into::into)
 }
-- 
2.43.0


From 210de0e19d445587c59e29eb49702f681dea856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 104/113] fix: Read single-byte ilst integers as signed

---
 lofty/src/mp4/ilst/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index a07f9ea..0e6d68a 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -359,7 +359,7 @@ fn parse_uint(bytes: &[u8]) -> Result<u32, AtomParseError> {
 
 fn parse_int(bytes: &[u8]) -> Result<i32, AtomParseError> {
 	match bytes.len() {
-		1 => Ok(i32::from(bytes[0])),
+		1 => Ok(i32::from(i8::from_be_bytes([bytes[0]]))),
 		2 => Ok(i32::from(i16::from_be_bytes([bytes[0], bytes[1]]))),
 		3 => {
 			let pad = if bytes[0] & 0x80 != 0 { 0xFF } else { 0x00 };
-- 
2.43.0


From 2248da1af44c3e27788de0d0241ab7963f25fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 105/113] fix: Skip only the ilst values that cannot be used

---
 lofty/src/mp4/ilst/read.rs | 62 ++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index 0e6d68a..1dbdb95 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -2,7 +2,7 @@ use super::constants::WELL_KNOWN_TYPE_SET;
 use super::data_type::DataType;
 use super::{Atom, AtomData, AtomIdent, Ilst};
 use crate::config::{ParseOptions, ParsingMode};
-use crate::error::NotEnoughDataError;
+use crate::error::{NotEnoughDataError, SizeMismatchError};
 use crate::id3::v1::constants::GENRES;
 use crate::macros::try_vec;
 use crate::mp4::atom_info::{ATOM_HEADER_LEN, AtomInfo};
@@ -243,32 +243,26 @@ where
 	// An atom can contain multiple data atoms
 	let mut ret = Vec::new();
 
-	let atom_end = atom_info.start + atom_info.len;
-	let position = reader.stream_position()?;
-	assert!(
-		atom_end >= position,
-		"uncaught size mismatch, reader position: {position} (expected <= {atom_end})",
-	);
-
-	let to_read = atom_end - position;
-	let mut pos = 0;
-	while pos < to_read {
-		let Some(next_atom) = reader.next()? else {
+	let atom_end = atom_info.end();
+	loop {
+		let position = reader.stream_position()?;
+		if position >= atom_end {
 			break;
-		};
+		}
 
-		if next_atom.len < 16 {
-			log::warn!(
-				"Expected data atom to be at least 16 bytes, got {}. Stopping",
-				next_atom.len
-			);
+		if atom_end - position < ATOM_HEADER_LEN {
+			log::warn!("Skipping trailing data in atom {:?}", atom_info.ident);
 			if parsing_mode == ParsingMode::Strict {
-				return Err(NotEnoughDataError::new(Some(16)).into());
+				return Err(SizeMismatchError.into());
 			}
 
 			break;
 		}
 
+		let Some(next_atom) = reader.next()? else {
+			break;
+		};
+
 		if next_atom.ident != DATA_ATOM_IDENT {
 			if parsing_mode == ParsingMode::Strict {
 				// Ident gets set later
@@ -284,35 +278,45 @@ where
 				expected_ident = DATA_ATOM_IDENT
 			);
 
-			pos += next_atom.len;
-			skip_atom(reader, next_atom.extended, next_atom.len)?;
+			reader.seek(SeekFrom::Start(next_atom.end()))?;
 			continue;
 		}
 
+		// The type indicator and locale
+		let Some(content_len) = next_atom.content_len().checked_sub(8) else {
+			log::warn!(
+				"Expected data atom to be at least 16 bytes, got {}. Skipping",
+				next_atom.len
+			);
+			if parsing_mode == ParsingMode::Strict {
+				return Err(NotEnoughDataError::new(Some(16)).into());
+			}
+
+			reader.seek(SeekFrom::Start(next_atom.end()))?;
+			continue;
+		};
+
 		let Some(data_type) = parse_type_indicator(reader, parsing_mode)? else {
 			log::warn!("Skipping atom with unknown type set");
-			let remaining_atom_len = next_atom.len - (ATOM_HEADER_LEN + 1);
-
-			reader.seek(SeekFrom::Current(remaining_atom_len as i64))?;
-			pos += remaining_atom_len;
+			reader.seek(SeekFrom::Start(next_atom.end()))?;
 			continue;
 		};
 
 		// We don't care about the locale
 		reader.seek(SeekFrom::Current(4))?;
 
-		let content_len = (next_atom.len - 16) as usize;
 		if content_len > 0 {
-			let mut content = try_vec![0; content_len]?;
+			let mut content = try_vec![0; content_len as usize]?;
 			reader.read_exact(&mut content)?;
 			ret.push((data_type, content));
 		} else {
 			log::warn!("Skipping empty \"data\" atom");
 		}
-
-		pos += next_atom.len;
 	}
 
+	// The next atom starts here, whatever was (or wasn't) found in this one
+	reader.seek(SeekFrom::Start(atom_end))?;
+
 	let ret = if ret.is_empty() { None } else { Some(ret) };
 	Ok(ret)
 }
-- 
2.43.0


From e454c705a789167b55865987861d9ca01a2afd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:42 +0000
Subject: [PATCH 106/113] fix: Keep the pictures beside one of an unknown type
 in a covr atom

---
 lofty/src/mp4/ilst/read.rs | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index 1dbdb95..19946bd 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -390,7 +390,6 @@ where
 	if let Some(atom_data) = parse_data_inner(reader, parsing_mode, atom_info)? {
 		let mut data = Vec::new();
 
-		let len = atom_data.len();
 		for (data_type, value) in atom_data {
 			let mime_type = match data_type {
 				// Type 0 is implicit
@@ -409,33 +408,24 @@ where
 						"Encountered \"covr\" atom with an unknown type of `{}`, discarding",
 						Into::<u32>::into(data_type)
 					);
-					return Ok(());
+					continue;
 				},
 			};
 
-			let picture_data = AtomData::Picture(Picture {
+			data.push(AtomData::Picture(Picture {
 				pic_type: PictureType::Other,
 				mime_type,
 				description: None,
 				data: Cow::from(value),
-			});
-
-			if len == 1 {
-				tag.atoms.push(Atom {
-					ident: AtomIdent::Fourcc(*b"covr"),
-					data: AtomDataStorage::Single(picture_data),
-				});
-
-				return Ok(());
-			}
-
-			data.push(picture_data);
+			}));
 		}
 
-		tag.atoms.push(Atom {
-			ident: AtomIdent::Fourcc(*b"covr"),
-			data: AtomDataStorage::Multiple(data),
-		});
+		if let Some(data) = AtomDataStorage::from_vec(data) {
+			tag.atoms.push(Atom {
+				ident: AtomIdent::Fourcc(*b"covr"),
+				data,
+			});
+		}
 	}
 
 	Ok(())
-- 
2.43.0


From 2419791122c871d2fcce2f1fb8b440d3c0459f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:43 +0000
Subject: [PATCH 107/113] fix: Update the moof offsets in tfra atoms

---
 lofty/src/mp4/ilst/write.rs | 69 ++++++++++++++++++++++++++++++-------
 lofty/src/mp4/write.rs      |  1 +
 2 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 2157f24..2034cb9 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -377,19 +377,7 @@ fn update_offsets(
 
 			let count = write_handle.read_u32::<BigEndian>()?;
 			for _ in 0..count {
-				let read_offset = write_handle.read_u32::<BigEndian>()?;
-				if u64::from(read_offset) < edit_offset {
-					continue;
-				}
-
-				let Ok(new_offset) = u32::try_from(i64::from(read_offset) + difference) else {
-					return Err(TooMuchDataError.into());
-				};
-
-				write_handle.seek(SeekFrom::Current(-4))?;
-				write_handle.write_u32::<BigEndian>(new_offset)?;
-
-				log::trace!("Updated offset from {read_offset} to {new_offset}");
+				update_32_bit_offset(&mut write_handle, difference, edit_offset)?;
 			}
 		}
 
@@ -428,11 +416,66 @@ fn update_offsets(
 		}
 	}
 
+	for mfra in writer.find_all_contextual_atoms(*b"mfra") {
+		log::trace!("Found `mfra` atom, checking for `tfra` atoms to update");
+
+		for tfra in mfra.find_all_children(*b"tfra", true) {
+			log::trace!("Found `tfra` atom");
+
+			write_handle.seek(SeekFrom::Start(content_start(tfra)))?;
+
+			let version = write_handle.read_u8()?;
+
+			// Skip flags (3) + track ID (4)
+			write_handle.seek(SeekFrom::Current(7))?;
+
+			// The `moof` offsets are followed by a `traf`, `trun`, and sample number, each having
+			// a length of (1 - 4) bytes
+			let lengths = write_handle.read_u32::<BigEndian>()?;
+			let numbers_len = ((lengths >> 4) & 3) + ((lengths >> 2) & 3) + (lengths & 3) + 3;
+
+			let count = write_handle.read_u32::<BigEndian>()?;
+			for _ in 0..count {
+				// The times and offsets are 64-bit in version 1
+				if version == 1 {
+					write_handle.seek(SeekFrom::Current(8))?;
+					update_64_bit_offset(&mut write_handle, difference, edit_offset)?;
+				} else {
+					write_handle.seek(SeekFrom::Current(4))?;
+					update_32_bit_offset(&mut write_handle, difference, edit_offset)?;
+				}
+
+				write_handle.seek(SeekFrom::Current(i64::from(numbers_len)))?;
+			}
+		}
+	}
+
 	drop(write_handle);
 
 	Ok(())
 }
 
+fn update_32_bit_offset(
+	write_handle: &mut AtomWriterCompanion<'_>,
+	difference: i64,
+	edit_offset: u64,
+) -> Result<(), FileEncodingError> {
+	let read_offset = write_handle.read_u32::<BigEndian>()?;
+	if u64::from(read_offset) < edit_offset {
+		return Ok(());
+	}
+
+	let Ok(new_offset) = u32::try_from(i64::from(read_offset) + difference) else {
+		return Err(TooMuchDataError.into());
+	};
+
+	write_handle.seek(SeekFrom::Current(-4))?;
+	write_handle.write_u32::<BigEndian>(new_offset)?;
+
+	log::trace!("Updated offset from {read_offset} to {new_offset}");
+	Ok(())
+}
+
 fn update_64_bit_offset(
 	write_handle: &mut AtomWriterCompanion<'_>,
 	difference: i64,
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 353e743..2d14705 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -30,6 +30,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 			*b"mdia",
 				*b"minf",
 					*b"stbl",
+	*b"mfra",
 ];
 impl ContextualAtom {
 	pub(super) fn read<R>(
-- 
2.43.0


From 843bcf6c4d2debd747cd700be5a30028e6e88398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:43 +0000
Subject: [PATCH 108/113] fix: Verify the format of the file a FlacFile is
 saved to

---
 lofty/src/flac/mod.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lofty/src/flac/mod.rs b/lofty/src/flac/mod.rs
index 7507ca7..d8d0e14 100644
--- a/lofty/src/flac/mod.rs
+++ b/lofty/src/flac/mod.rs
@@ -11,14 +11,14 @@ mod read;
 pub(crate) mod write;
 
 use crate::config::WriteOptions;
-use crate::error::FileEncodingError;
+use crate::error::{FileEncodingError, UnsupportedTagError};
 use crate::file::{FileType, TaggedFile};
 use crate::id3::v2::tag::Id3v2Tag;
 use crate::io::{FaultLatch, VerifiedFile};
 use crate::ogg::OggPictureStorage;
 use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::TagExt;
+use crate::tag::{TagExt, TagType};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -67,8 +67,13 @@ impl FlacFile {
 	{
 		// TODO: This is bad. `Id3v2Tag::save_to()` is probing the file, then we do a second probe with `VerifiedFile::new`
 		if let Some(ref id3v2) = self.id3v2_tag {
-			id3v2.save_to(file, write_options)?;
 			file.rewind()?;
+			id3v2.save_to(file, write_options)?;
+		}
+
+		file.rewind()?;
+		if self.vorbis_comments_tag.is_none() && self.pictures.is_empty() {
+			return Ok(());
 		}
 
 		let mut file = FaultLatch::new(file);
@@ -86,6 +91,11 @@ impl FlacFile {
 	{
 		let file = VerifiedFile::new(file)?;
 
+		let format = file.format();
+		if !format.tag_support(TagType::VorbisComments).is_writable() {
+			return Err(FileEncodingError::from(UnsupportedTagError).with_format(format));
+		}
+
 		// We have an existing vorbis comments tag, we can just append our pictures to it
 		if let Some(ref vorbis_comments) = self.vorbis_comments_tag {
 			return VorbisCommentsRef {
-- 
2.43.0


From 4d3c8f9260894e5f7d17769ac33e24ac99de6217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:39 +0000
Subject: [PATCH 109/113] fix: Find the frame header of any JPEG

Only the markers SOF0 and SOF2 were recognized, fill bytes ahead of a marker
ended the search, and a frame header in the first segment was skipped.
---
 lofty/src/picture/mod.rs | 42 +++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 6604c18..e2eda51 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -428,30 +428,22 @@ impl PictureInformation {
 	///
 	/// * `reader` is not a JPEG image
 	/// * `reader` does not contain a `SOFn` frame
-	pub fn from_jpeg(mut data: &[u8]) -> Result<Self, PictureParseError> {
-		let reader = &mut data;
-
-		let mut frame_marker = [0; 4];
-		reader.read_exact(&mut frame_marker)?;
-
-		if !matches!(frame_marker, [0xFF, 0xD8, 0xFF, ..]) {
+	pub fn from_jpeg(data: &[u8]) -> Result<Self, PictureParseError> {
+		if !data.starts_with(&[0xFF, 0xD8, 0xFF]) {
 			return Err(UnknownImageFormatError.into());
 		}
 
-		let mut section_len = reader.read_u16::<BigEndian>()?;
-
-		let mut reader = Cursor::new(reader);
-
-		// The length contains itself, so anything < 2 is invalid
-		let Some(content_len) = section_len.checked_sub(2) else {
-			return Err(NotEnoughDataError::new(Some(2)).into());
-		};
-
-		reader.seek(SeekFrom::Current(i64::from(content_len)))?;
+		// Skip the SOI marker, all of the segments follow it
+		let mut reader = Cursor::new(&data[2..]);
 
 		while let Ok(0xFF) = reader.read_u8() {
-			let marker = reader.read_u8()?;
-			section_len = reader.read_u16::<BigEndian>()?;
+			let mut marker = reader.read_u8()?;
+			// Any marker may be preceded by fill bytes
+			while marker == 0xFF {
+				marker = reader.read_u8()?;
+			}
+
+			let section_len = reader.read_u16::<BigEndian>()?;
 
 			// This marks the SOS (Start of Scan), which is
 			// the end of the header
@@ -459,11 +451,13 @@ impl PictureInformation {
 				break;
 			}
 
-			// We are looking for a frame with a "SOFn" marker,
-			// with `n` either being 0 or 2. Since there isn't a
-			// header like PNG, we actually need to search for this
-			// frame
-			if marker == 0xC0 || marker == 0xC2 {
+			// We are looking for a frame with a "SOFn" marker. Since there
+			// isn't a header like PNG, we actually need to search for this
+			// frame.
+			//
+			// The markers 0xC4 (DHT), 0xC8 (JPG), and 0xCC (DAC) are in the
+			// middle of their range.
+			if matches!(marker, 0xC0..=0xC3 | 0xC5..=0xC7 | 0xC9..=0xCB | 0xCD..=0xCF) {
 				let precision = reader.read_u8()?;
 				let height = u32::from(reader.read_u16::<BigEndian>()?);
 				let width = u32::from(reader.read_u16::<BigEndian>()?);
-- 
2.43.0


From efd934b1c1afacea215ff080706d369607d2cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:02 +0000
Subject: [PATCH 110/113] fix: Honor the byte order mark of each UTF-16 string
 in a frame

Every string after the first was decoded in the byte order of the first, even
if it has a byte order mark of its own.
---
 lofty/src/util/text.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/util/text.rs b/lofty/src/util/text.rs
index a8eb444..d9bdeab 100644
--- a/lofty/src/util/text.rs
+++ b/lofty/src/util/text.rs
@@ -481,7 +481,7 @@ pub(crate) fn utf16_decode(words: &[u16]) -> Result<String, TextDecodingError> {
 
 pub(crate) fn utf16_decode_bytes(
 	bytes: &[u8],
-	endianness: fn([u8; 2]) -> u16,
+	mut endianness: fn([u8; 2]) -> u16,
 ) -> Result<String, TextDecodingError> {
 	if bytes.is_empty() {
 		return Ok(String::new());
@@ -498,6 +498,11 @@ pub(crate) fn utf16_decode_bytes(
 			expect_bom = c == [0, 0];
 
 			if is_bom {
+				// Each string may have its own byte order
+				endianness = match c {
+					[0xFF, 0xFE] => u16::from_le_bytes,
+					_ => u16::from_be_bytes,
+				};
 				return None;
 			}
 
-- 
2.43.0


From 5f0081a5eece4f0b3d2af89c2c8b8a54642f5386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 111/113] fix: Refuse to save a generic tag to a custom file
 type rather than panic

---
 lofty/src/tag/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 6ce129a..42fcc50 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -1,5 +1,5 @@
 use crate::config::WriteOptions;
-use crate::error::{FileEncodingError, TagEncodingError};
+use crate::error::{FileEncodingError, TagEncodingError, UnsupportedTagError};
 use crate::file::FileType;
 use crate::id3::v1::Id3v1Tag;
 use crate::id3::v2::Id3v2Tag;
@@ -41,7 +41,8 @@ where
 		),
 		FileType::Wav => iff::wav::write::write_to(file, tag, write_options),
 		FileType::WavPack => wavpack::write::write_to(file, tag, write_options),
-		FileType::Custom(_) => unreachable!("custom file types don't support writing"),
+		// Custom file types bring their own writing, there is none to do here
+		FileType::Custom(_) => Err(UnsupportedTagError.into()),
 	}
 }
 
-- 
2.43.0


From 8a3315cdb73550d3a6809a4e8260513e15272831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:44 +0000
Subject: [PATCH 112/113] fix: Refuse to save Vorbis Comments to a custom file
 type rather than panic

---
 lofty/src/ogg/tag/write.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index b53a812..00d6b95 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -1,5 +1,7 @@
 use crate::config::WriteOptions;
-use crate::error::{FileEncodingError, FileParseError, TagEncodingError, TooMuchDataError};
+use crate::error::{
+	FileEncodingError, FileParseError, TagEncodingError, TooMuchDataError, UnsupportedTagError,
+};
 use crate::file::FileType;
 use crate::io::VerifiedFile;
 use crate::macros::try_vec;
@@ -44,7 +46,8 @@ where
 		FileType::Opus => (2, Some(OPUSTAGS)),
 		FileType::Vorbis => (3, Some(VORBIS_COMMENT_HEAD)),
 		FileType::Speex => (2, None),
-		_ => unreachable!("file type verified beforehand"),
+		// A custom file type, which could be anything
+		_ => return Err(UnsupportedTagError.into()),
 	};
 
 	let mut file = file.into_inner();
-- 
2.43.0


From 96b9412ae6ee24227788bb37039a27e30957a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:03 +0000
Subject: [PATCH 113/113] fix: Start the CRC of an ID3v2 tag right behind its
 restrictions

---
 lofty/src/id3/v2/write/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index d4624de..a69e85c 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -199,7 +199,7 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		let mut content_start_idx = 22;
 
 		if has_restrictions {
-			content_start_idx += 3;
+			content_start_idx += 2;
 		}
 
 		// Skip 16 bytes
-- 
2.43.0

