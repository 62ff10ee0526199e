From 12296fada4d70b3ae2e42ae58d47b6b0d43b28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 001/156] fix: initialize description encoding and flags when
 constructing TagValue from C-string

---
 tagvalue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index aaa0924..cfb825d 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -189,6 +189,8 @@ TagValue::TagValue(const char *text, std::size_t textSize, TagTextEncoding textE
  * \remarks Strips the BOM of the specified \a text.
  */
 TagValue::TagValue(const char *text, TagTextEncoding textEncoding, TagTextEncoding convertTo)
+    : m_descEncoding(TagTextEncoding::Latin1)
+    , m_flags(TagValueFlags::None)
 {
     assignText(text, std::strlen(text), textEncoding, convertTo);
 }
-- 
2.43.0


From db118229507fadea85b0832499e321361437963a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 002/156] fix: convert the actual string in
 TagValue::toWString() for non-text types

---
 tagvalue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index cfb825d..68e081f 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1192,8 +1192,8 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
     if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
-        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), result.size())
-                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), result.size());
+        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), regularStrRes.size())
+                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), regularStrRes.size());
         result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
     }
 }
-- 
2.43.0


From 0b1e397c69510c730871aeeb48269141a6cfbb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 003/156] fix: copy flags when copy-constructing TagValue

---
 tagvalue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 68e081f..cb8249a 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -140,7 +140,7 @@ TagValue::TagValue(const TagValue &other)
     , m_type(other.m_type)
     , m_encoding(other.m_encoding)
     , m_descEncoding(other.m_descEncoding)
-    , m_flags(TagValueFlags::None)
+    , m_flags(other.m_flags)
 {
     if (!other.isEmpty()) {
         m_ptr = make_unique<char[]>(m_size);
-- 
2.43.0


From 873f509a3d25538e96dec6c1cb1c92af54d5d5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:15 +0000
Subject: [PATCH 004/156] fix: allocate buffer when assigning data to a
 moved-from TagValue

---
 tagvalue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index cb8249a..02da52b 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1294,7 +1294,7 @@ void TagValue::assignData(const char *data, size_t length, TagDataType type, Tag
     if (type == TagDataType::Text) {
         stripBom(data, length, encoding);
     }
-    if (length > m_size) {
+    if (length > m_size || !m_ptr) { // note: m_ptr is null when the object has been moved from
         m_ptr = make_unique<char[]>(length);
     }
     if (length) {
-- 
2.43.0


From a4fc1389a6848a657813ea4351cea49f3722d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 005/156] fix: consider record date in Id3v1Tag::hasField()

---
 id3/id3v1tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..d02a968 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -207,6 +207,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
-- 
2.43.0


From 5a349e56f035d2628fed5c34423ad601d4fccce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 006/156] fix: read ID3v1 fields consisting of a single
 character

---
 id3/id3v1tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index d02a968..68d4af4 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -279,11 +279,11 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
     const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
+    while (end >= buffer && (*end == 0x0 || *end == ' ')) {
         --end;
         --maxLength;
     }
-    if (buffer == end) {
+    if (end < buffer) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
-- 
2.43.0


From be21843a0da94b4431cb4a4b8f57db093e242035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 007/156] fix: read ID3v1 track numbers beyond 127 as unsigned

---
 id3/id3v1tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 68d4af4..ba55e6a 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -78,7 +78,7 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
     if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<char *>(buffer + 126), 0));
+        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
     m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
 }
-- 
2.43.0


From 4f6f5d184fba0f800af8fa5918ff2ed7256a06f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 008/156] fix: warn about truncated ID3v1 fields also when a
 BOM is added

---
 id3/id3v1tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index ba55e6a..53a4c5f 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -340,7 +340,7 @@ void Id3v1Tag::writeValue(const TagValue &value, size_t length, char *buffer, os
     }
 
     // copy the string
-    if (valueAsString.size() > length) {
+    if (valueAsString.size() > valueLength) {
         diag.emplace_back(
             DiagLevel::Warning, argsToString("Value has been truncated. Max. ", length, " characters supported."), "making ID3v1 tag field");
     }
-- 
2.43.0


From 999acd80d0153fff58fa0d9ab2d5acec8ee5c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 009/156] fix: insert values of all known fields in
 Tag::insertValues()

---
 tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag.cpp b/tag.cpp
index 065e98b..07619f8 100644
--- a/tag.cpp
+++ b/tag.cpp
@@ -89,7 +89,7 @@ bool Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 std::size_t Tag::insertValues(const Tag &from, bool overwrite)
 {
     auto count = std::size_t(0);
-    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(KnownField::Description); i <= last; ++i) {
+    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(lastKnownField); i <= last; ++i) {
         auto field = static_cast<KnownField>(i);
         const TagValue &ownValue = value(field);
         if (overwrite || ownValue.isEmpty()) {
-- 
2.43.0


From 50f4f95ff4b61d60d608b8db98b1767289edef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 010/156] fix: convert ID3v2 frame IDs for composer and
 synchronized lyrics

---
 id3/id3v2frameids.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/id3/id3v2frameids.cpp b/id3/id3v2frameids.cpp
index 9afb674..ba76cf2 100644
--- a/id3/id3v2frameids.cpp
+++ b/id3/id3v2frameids.cpp
@@ -69,6 +69,10 @@ std::uint32_t convertToShortId(std::uint32_t id)
         return sEncoderSettings;
     case lUnsynchronizedLyrics:
         return sUnsynchronizedLyrics;
+    case lSynchronizedLyrics:
+        return sSynchronizedLyrics;
+    case lComposer:
+        return sComposer;
     case lAlbumArtist:
         return sAlbumArtist;
     case lContentGroupDescription:
@@ -159,6 +163,10 @@ std::uint32_t convertToLongId(std::uint32_t id)
         return lEncoderSettings;
     case sUnsynchronizedLyrics:
         return lUnsynchronizedLyrics;
+    case sSynchronizedLyrics:
+        return lSynchronizedLyrics;
+    case sComposer:
+        return lComposer;
     case sAlbumArtist:
         return lAlbumArtist;
     case sContentGroupDescription:
-- 
2.43.0


From 3f893794b3e19497ff70718d7f52bbbf48258d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 011/156] fix: recognize language field of Vorbis comments

---
 vorbis/vorbiscomment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..66b6a8e 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -144,6 +144,7 @@ KnownField VorbisComment::internallyGetKnownField(const IdentifierType &id) cons
          { grouping(), KnownField::Grouping },
          { label(), KnownField::RecordLabel },
          { performer(), KnownField::Performers },
+         { language(), KnownField::Language },
          { lyricist(), KnownField::Lyricist },
          { lyrics(), KnownField::Lyrics },
          { albumArtist(), KnownField::AlbumArtist },
-- 
2.43.0


From 3dc77b4c9b5bda979605fe65e90f274aa27c15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 012/156] fix: recognize genre field of Matroska tags

---
 matroska/matroskatag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index 1c3c20f..d262105 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -218,6 +218,7 @@ KnownField MatroskaTag::internallyGetKnownField(const IdentifierType &id) const
         { dateRecorded(), KnownField::RecordDate },
         { dateRelease(), KnownField::ReleaseDate },
         { title(), KnownField::Title },
+        { genre(), KnownField::Genre },
         { partNumber(), KnownField::PartNumber },
         { totalParts(), KnownField::TotalParts },
         { encoder(), KnownField::Encoder },
-- 
2.43.0


From 9b107704f77205962fa0e27c48528e91d887586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 013/156] fix: avoid reading beyond the frame when parsing
 unterminated ID3v2 strings

---
 id3/id3v2frame.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..7cdd6c6 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -932,16 +932,18 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             get<0>(res) += 3;
         }
         const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
-            if (pos < get<2>(res)) {
-                ++get<1>(res);
-            } else {
+        for (;; ++pos) {
+            if (pos >= get<2>(res)) {
                 if (addWarnings) {
                     diag.emplace_back(
                         DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
                 }
                 break;
             }
+            if (*pos == 0x00) {
+                break;
+            }
+            ++get<1>(res);
         }
         get<2>(res) = pos + 1;
         break;
@@ -964,19 +966,21 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 get<0>(res) += 2;
             }
         }
-        const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
-                get<1>(res) += 2;
-            } else {
+        const char *pos = get<0>(res);
+        for (;; pos += 2) {
+            if (get<2>(res) - pos < 2) {
                 if (addWarnings) {
                     diag.emplace_back(
                         DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
                 }
                 break;
             }
+            if (!pos[0] && !pos[1]) {
+                break;
+            }
+            get<1>(res) += 2;
         }
-        get<2>(res) = reinterpret_cast<const char *>(pos + 1);
+        get<2>(res) = pos + 2;
         break;
     }
     }
-- 
2.43.0


From ae7206b5f6ee5c5c4ab459cb385600d91d390719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 014/156] fix: read unterminated ID3v2 URL frames completely

---
 id3/id3v2frame.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 7cdd6c6..972ba56 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -278,13 +278,14 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         auto dataEncoding = isTextFrame ? parseTextEncodingByte(static_cast<std::uint8_t>(*(currentOffset++)), diag) : TagTextEncoding::Latin1;
 
         // parse string values (since ID3v2.4 a text frame may contain multiple strings)
-        for (size_t currentIndex = 1; currentIndex < m_dataSize;) {
+        const auto firstIndex = static_cast<size_t>(currentOffset - buffer.get());
+        for (size_t currentIndex = firstIndex; currentIndex < m_dataSize;) {
             // determine the next substring
             const auto substr(parseSubstring(currentOffset, m_dataSize - currentIndex, dataEncoding, false, diag));
 
             // handle case when string is empty
             if (!get<1>(substr)) {
-                if (currentIndex == 1) {
+                if (currentIndex == firstIndex) {
                     value().clearDataAndMetadata();
                 }
                 currentIndex = static_cast<size_t>(get<2>(substr) - buffer.get());
-- 
2.43.0


From 09c4090e8a7e988a5541ab2446f74911c1f062b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 015/156] fix: avoid writing superfluous zero bytes to ID3v2
 comment frames

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 972ba56..59fe840 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1316,7 +1316,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
     // calculate needed buffer size and create buffer
     // note: encoding byte + language + description size + actual data size + BOMs and termination
     const auto data = comment.toString(encoding);
-    const auto requiredBufferSize = 1 + 3 + descriptionSize + data.size()
+    const auto requiredBufferSize = 1 + 3 + descriptionSize
         + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1) + data.size();
     if (requiredBufferSize > numeric_limits<uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Critical, "Required size exceeds maximum.", context);
-- 
2.43.0


From e10ef1b85333892b97792a859fdcc93fc932de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 016/156] fix: avoid cutting UTF-16 descriptions of ID3v2
 frames within a character

---
 id3/id3v2frame.cpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 59fe840..7bd154d 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1143,6 +1143,22 @@ size_t Id3v2Frame::makeBom(char *buffer, TagTextEncoding encoding)
     }
 }
 
+/*!
+ * \brief Returns the size of the specified \a text up to the first terminating null character (one or two bytes depending on the \a encoding).
+ */
+static std::size_t findTermination(const std::string &text, TagTextEncoding encoding)
+{
+    if (encoding != TagTextEncoding::Utf16BigEndian && encoding != TagTextEncoding::Utf16LittleEndian) {
+        return std::min(text.find('\0'), text.size());
+    }
+    for (auto pos = std::size_t(); pos + 1 < text.size(); pos += 2) {
+        if (!text[pos] && !text[pos + 1]) {
+            return pos;
+        }
+    }
+    return text.size();
+}
+
 /*!
  * \brief Writes the specified picture to the specified buffer (ID3v2.2 compatible).
  */
@@ -1152,11 +1168,7 @@ void Id3v2Frame::makeLegacyPicture(
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = findTermination(picture.description(), descriptionEncoding);
     if (descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1227,11 +1239,7 @@ void Id3v2Frame::makePicture(std::unique_ptr<char[]> &buffer, std::uint32_t &buf
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    auto descriptionSize = findTermination(picture.description(), descriptionEncoding);
     if (version < 4 && descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1301,11 +1309,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
         throw InvalidDataException();
     }
     StringData convertedDescription;
-    string::size_type descriptionSize = comment.description().find(
-        "\0\0", 0, encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = comment.description().size();
-    }
+    auto descriptionSize = findTermination(comment.description(), encoding);
     if (version < 4 && encoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         encoding = TagTextEncoding::Utf16LittleEndian;
-- 
2.43.0


From a030a63a939f6b4fcd2a7eb776fe518c80950201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 017/156] fix: treat ID3v2 frames with a size close to 2^32 as
 truncated

---
 id3/id3v2frame.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 7bd154d..65ad21e 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -198,11 +198,12 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        m_totalSize = m_dataSize + 10;
-        if (m_totalSize > maximalSize) {
+        if (m_dataSize > numeric_limits<std::uint32_t>::max() - 10 || m_dataSize + 10 > maximalSize) {
+            m_totalSize = maximalSize;
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
         }
+        m_totalSize = m_dataSize + 10;
 
         // -> read flags and group
         m_flag = reader.readUInt16BE();
-- 
2.43.0


From ccfd9619e34369ee2d3890e69127072681c44200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 018/156] fix: keep ID3v2 genres which are no valid index as
 text

---
 id3/id3v2frame.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 65ad21e..a97075f 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1,4 +1,5 @@
 #include "./id3v2frame.h"
+#include "./id3genres.h"
 #include "./id3v2frameids.h"
 
 #include "../diagnostics.h"
@@ -68,6 +69,7 @@ Id3v2Frame::Id3v2Frame(const IdentifierType &id, const TagValue &value, std::uin
 template <class stringtype> static int parseGenreIndex(const stringtype &denotation)
 {
     auto index = -1;
+    auto hasDigits = false;
     for (auto c : denotation) {
         if (index == -1) {
             switch (c) {
@@ -81,6 +83,7 @@ template <class stringtype> static int parseGenreIndex(const stringtype &denotat
             default:
                 if (c >= '0' && c <= '9') {
                     index = c - '0';
+                    hasDigits = true;
                 } else {
                     return -1;
                 }
@@ -88,19 +91,19 @@ template <class stringtype> static int parseGenreIndex(const stringtype &denotat
         } else {
             switch (c) {
             case ')':
-                return index;
             case '\0':
-                return index;
+                return hasDigits ? index : -1;
             default:
-                if (c >= '0' && c <= '9') {
+                if (c >= '0' && c <= '9' && index <= 0xFF) {
                     index = index * 10 + c - '0';
+                    hasDigits = true;
                 } else {
                     return -1;
                 }
             }
         }
     }
-    return index;
+    return hasDigits ? index : -1;
 }
 
 /*!
@@ -345,7 +348,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
                         return parseGenreIndex(stringFromSubstring(substr));
                     }
                 }();
-                if (genreIndex != -1) {
+                if (Id3Genres::isIndexSupported(genreIndex) || Id3Genres::isEmptyGenre(genreIndex)) {
                     // genre is specified as ID3 genre number
                     value->assignStandardGenreIndex(genreIndex);
                 } else {
-- 
2.43.0


From 97f67694414b0c807e92e17ae138a4602c120553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 019/156] fix: avoid undefined conversion when writing ID3v2
 ratings

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index a97075f..8b59430 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -761,7 +761,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_data = make_unique<char[]>(m_decompressedSize);
             auto pos = popularity.user.size() + 1;
             std::memcpy(m_data.get(), popularity.user.data(), pos);
-            m_data[pos] = static_cast<char>(popularity.rating);
+            m_data[pos] = static_cast<char>(static_cast<std::uint8_t>(popularity.rating));
             writePlayCounter(m_data.get() + pos + playCounterSize, playCounterSize, popularity.playCounter);
 
         } else {
-- 
2.43.0


From f2674ec0188cdff37a0bd058a4ee75dcba0ef7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 020/156] fix: check for footer of ID3v2 tags at its position
 and do not denote a footer when writing none

---
 id3/id3v2tag.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..bd86d3c 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -643,9 +643,10 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
-    if (maximalSize && m_size + 10 < maximalSize) {
+    if (!maximalSize || m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
-        stream.seekg(static_cast<streamoff>(startOffset + (m_size += 10)));
+        stream.seekg(static_cast<streamoff>(startOffset + m_size));
+        m_size += 10;
         if (reader.readUInt24LE() != 0x494433u) {
             diag.emplace_back(DiagLevel::Critical, "Footer signature is invalid.", context);
         }
@@ -900,8 +901,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit set
-    writer.writeByte(m_tag.flags() & 0xBF);
+    // -> flags, but without extended header or compression bit and footer bit set
+    writer.writeByte(m_tag.flags() & 0xAF);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From 1ef3602fcff14b39b2fd50fedea1201c11fdf0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 021/156] fix: skip extended header of ID3v2.3 tags completely

---
 id3/id3v2tag.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index bd86d3c..1f543ea 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -590,6 +590,9 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             throw TruncatedDataException();
         }
         m_extendedHeaderSize = reader.readSynchsafeUInt32BE();
+        if (majorVersion < 4) {
+            m_extendedHeaderSize += 4; // the size does not include the size field itself before v2.4.0
+        }
         if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
-- 
2.43.0


From c1a4341e9cc413f60959ad0ca072156439a5cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:12 +0000
Subject: [PATCH 022/156] fix: consider header size when limiting size of
 truncated ID3v2 tags

---
 id3/id3v2tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 1f543ea..b2a5293 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -602,8 +602,8 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
 
     // how many bytes remain for frames and padding?
     std::uint32_t bytesRemaining = m_sizeExcludingHeader - m_extendedHeaderSize;
-    if (maximalSize && bytesRemaining > maximalSize) {
-        bytesRemaining = static_cast<std::uint32_t>(maximalSize);
+    if (maximalSize && bytesRemaining > maximalSize - 10 - m_extendedHeaderSize) {
+        bytesRemaining = static_cast<std::uint32_t>(maximalSize - 10 - m_extendedHeaderSize);
         diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
     }
 
-- 
2.43.0


From ab5a68f8be9bd7ba97753634adb9f61d0f6f4947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 023/156] fix: provide a strict weak ordering for ID3v2 frame
 IDs

---
 id3/id3v2tag.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index b2a5293..da35488 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -713,6 +713,13 @@ void Id3v2Tag::setVersion(std::uint8_t majorVersion, std::uint8_t revisionVersio
  */
 bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
 {
+    for (auto *const id : { &lhs, &rhs }) {
+        if (Id3v2FrameIds::isShortId(*id)) {
+            if (const auto longId = Id3v2FrameIds::convertToLongId(*id)) {
+                *id = longId;
+            }
+        }
+    }
     if (lhs == rhs) {
         return false;
     }
@@ -720,17 +727,7 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
     const bool lhsLong = Id3v2FrameIds::isLongId(lhs);
     const bool rhsLong = Id3v2FrameIds::isLongId(rhs);
     if (lhsLong != rhsLong) {
-        if (!lhsLong) {
-            lhs = Id3v2FrameIds::convertToLongId(lhs);
-            if (!lhs) {
-                return true;
-            }
-        } else if (!rhsLong) {
-            rhs = Id3v2FrameIds::convertToLongId(rhs);
-            if (!rhs) {
-                return true;
-            }
-        }
+        return rhsLong;
     }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
-- 
2.43.0


From d18591f42bca86a3d9e0425476b6eada35670657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 024/156] fix: read image format of ID3v2.2 pictures

---
 id3/id3v2frame.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 8b59430..c681a64 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -16,6 +16,7 @@
 #include <cstring>
 #include <limits>
 #include <memory>
+#include <string_view>
 
 using namespace std;
 using namespace CppUtilities;
@@ -1056,6 +1057,16 @@ void Id3v2Frame::parseLegacyPicture(const char *buffer, std::size_t maxSize, Tag
     }
     const char *end = buffer + maxSize;
     auto dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag); // the first byte stores the encoding
+    const auto imageFormat = std::string_view(buffer + 1, 3);
+    if (imageFormat == "JPG") {
+        tagValue.setMimeType("image/jpeg");
+    } else if (imageFormat == "PNG") {
+        tagValue.setMimeType("image/png");
+    } else if (imageFormat == "GIF") {
+        tagValue.setMimeType("image/gif");
+    } else if (imageFormat == "-->") {
+        tagValue.setMimeType(imageFormat);
+    }
     typeInfo = static_cast<unsigned char>(*(buffer + 4));
     auto substr = parseSubstring(buffer + 5, static_cast<size_t>(end - 5 - buffer), dataEncoding, true, diag);
     tagValue.setDescription(string(get<0>(substr), get<1>(substr)), dataEncoding);
-- 
2.43.0


From efdce7a90ef372ee064dc9c55bd158ee6eb9294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:58 +0000
Subject: [PATCH 025/156] fix: avoid reading beyond ID3v2 tags with little
 padding

---
 id3/id3v2tag.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index da35488..22f4ab1 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -609,7 +609,13 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
 
     // read frames
     auto pos = static_cast<std::uint64_t>(stream.tellg());
+    const auto frameHeaderSize = majorVersion < 3 ? 6u : 10u;
     while (bytesRemaining) {
+        // treat remaining bytes as padding if there is no room for another frame header
+        if (bytesRemaining < frameHeaderSize) {
+            m_paddingSize = startOffset + m_size - pos;
+            break;
+        }
         // seek to next frame
         stream.seekg(static_cast<streamoff>(pos));
         // parse frame
-- 
2.43.0


From 02448c22796defc5a14f306a4dbd833fffee5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 026/156] fix: write all covers of Vorbis comments, not only
 the first one

---
 vorbis/vorbiscomment.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 66b6a8e..fa046a2 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -416,8 +416,10 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
             fieldsWritten += makeField(i.second, writer, flags, diag);
         }
     }
-    if (const auto cover = fields().find(coverId); cover != fields().end()) {
-        fieldsWritten += makeField(cover->second, writer, flags, diag);
+    for (auto [cover, end] = fields().equal_range(coverId); cover != end; ++cover) {
+        if (cover->first == coverId) {
+            fieldsWritten += makeField(cover->second, writer, flags, diag);
+        }
     }
     // write field count
     const auto framingByteOffset = stream.tellp();
-- 
2.43.0


From b4a80968278d4607edb3104789d12231cc6adc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 027/156] fix: write the vendor of Vorbis comments as UTF-8

---
 vorbis/vorbiscomment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index fa046a2..60571e0 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -392,7 +392,7 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
     static const string context("making Vorbis comment");
     string vendor;
     try {
-        m_vendor.toString(vendor);
+        m_vendor.toString(vendor, TagTextEncoding::Utf8);
     } catch (const ConversionException &) {
         diag.emplace_back(DiagLevel::Warning, "Can not convert the assigned vendor to string.", context);
     }
-- 
2.43.0


From 545443c304713c28e60ddc35bfc75529120d816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 028/156] fix: avoid reading beyond Vorbis comment cover fields
 without value

---
 vorbis/vorbiscommentfield.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index aebc010..142ceb7 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -74,6 +74,10 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 throw InvalidDataException();
             } else if (id() == VorbisCommentIds::cover()) {
                 // extract cover value
+                if (idSize == size) {
+                    diag.emplace_back(DiagLevel::Critical, "METADATA_BLOCK_PICTURE has no value.", context);
+                    throw InvalidDataException();
+                }
                 try {
                     auto decoded = decodeBase64(data.get() + idSize + 1, size - idSize - 1);
                     stringstream bufferStream(ios_base::in | ios_base::out | ios_base::binary);
-- 
2.43.0


From 1ef8ad0ce4f8915e41a872f20f8194f4317f0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:13 +0000
Subject: [PATCH 029/156] fix: treat descriptions of METADATA_BLOCK_PICTURE as
 UTF-8

---
 flac/flacmetadata.cpp | 18 +++++++++++++++++-
 flac/flacmetadata.h   |  2 ++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/flac/flacmetadata.cpp b/flac/flacmetadata.cpp
index b212a63..c11f91b 100644
--- a/flac/flacmetadata.cpp
+++ b/flac/flacmetadata.cpp
@@ -4,6 +4,7 @@
 #include "../tagvalue.h"
 
 #include <c++utilities/conversion/binaryconversion.h>
+#include <c++utilities/conversion/conversionexception.h>
 #include <c++utilities/io/binaryreader.h>
 #include <c++utilities/io/binarywriter.h>
 #include <c++utilities/io/bitreader.h>
@@ -90,7 +91,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     m_value.setMimeType(reader.readString(size));
     size = reader.readUInt32BE();
     CHECK_MAX_SIZE(size);
-    m_value.setDescription(reader.readString(size));
+    m_value.setDescription(reader.readString(size), TagTextEncoding::Utf8);
     // skip width, height, color depth, number of colors used
     inputStream.seekg(4 * 4, ios_base::cur);
     size = reader.readUInt32BE();
@@ -104,6 +105,19 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
     }
 }
 
+/*!
+ * \brief Ensures the description is UTF-8 encoded as required by the "METADATA_BLOCK_PICTURE" structure.
+ * \throws Throws an InvalidDataException() if the description can not be converted to UTF-8.
+ */
+void FlacMetaDataBlockPicture::convertDescription() const
+{
+    try {
+        m_value.convertDescriptionEncoding(TagTextEncoding::Utf8);
+    } catch (const ConversionException &) {
+        throw InvalidDataException();
+    }
+}
+
 /*!
  * \brief Returns the number of bytes make() will write.
  * \remarks Any changes to the object will invalidate this value.
@@ -111,6 +125,7 @@ void FlacMetaDataBlockPicture::parse(istream &inputStream, std::uint32_t maxSize
  */
 std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
 {
+    convertDescription();
     const auto requiredSize(32 + m_value.mimeType().size() + m_value.description().size() + m_value.dataSize());
     if (requiredSize > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
@@ -124,6 +139,7 @@ std::uint32_t FlacMetaDataBlockPicture::requiredSize() const
  */
 void FlacMetaDataBlockPicture::make(ostream &outputStream)
 {
+    convertDescription();
     if (m_value.mimeType().size() > numeric_limits<std::uint32_t>::max() || m_value.description().size() > numeric_limits<std::uint32_t>::max()
         || m_value.dataSize() > numeric_limits<std::uint32_t>::max()) {
         throw InvalidDataException();
diff --git a/flac/flacmetadata.h b/flac/flacmetadata.h
index b1f64a3..2f0757e 100644
--- a/flac/flacmetadata.h
+++ b/flac/flacmetadata.h
@@ -258,6 +258,8 @@ public:
     TagValue &value();
 
 private:
+    void convertDescription() const;
+
     std::uint32_t m_pictureType;
     TagValue &m_value;
 };
-- 
2.43.0


From 14ebbed6511ece18cb0a25ba93d5a40d25e45686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 030/156] fix: continue behind the last FLAC metadata block
 after adjusting its last flag

---
 flac/flacstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..e084517 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -221,7 +221,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(!m_vorbisComment);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        originalStream.seekg(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     // write Vorbis comment
@@ -290,7 +290,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(true);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        outputStream.seekp(lastActuallyWrittenHeader.dataSize());
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     return lastStartOffset;
-- 
2.43.0


From 4ff57cf906246c1bf25be6dc43c8da4b8a49e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 031/156] fix: avoid using missing Vorbis comment when reading
 FLAC pictures

---
 flac/flacstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index e084517..c2eee3c 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -2,6 +2,7 @@
 #include "./flacmetadata.h"
 
 #include "../vorbis/vorbiscomment.h"
+#include "../vorbis/vorbiscommentids.h"
 
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
@@ -129,7 +130,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
-- 
2.43.0


From 6f6d8654b9108866520777bd1609740dc2c7fb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 032/156] fix: write padding of FLAC files with ID3v2 tag only
 once

---
 mediafileinfo.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..b901139 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1771,6 +1771,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
         padding = preferredPadding();
         rewriteRequired = true;
     }
+    // include padding in the FLAC stream unless it is too small for a FLAC padding block
+    const auto flacPadding = flacStream != nullptr && (makers.empty() || padding >= 4);
     if (rewriteRequired && flacStream && makers.empty() && padding) {
         // the first 4 byte of FLAC padding actually don't count because these
         // can not be used for additional meta data
@@ -1837,11 +1839,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 i->make(outputStream, 0, diag);
             }
             // include padding into the last ID3v2 tag
-            makers.back().make(outputStream, (flacStream && padding && padding < 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
+            makers.back().make(outputStream, flacPadding ? 0 : static_cast<std::uint32_t>(padding), diag);
         }
 
         if (flacStream) {
-            if (padding && startOfLastMetaDataBlock) {
+            if (flacPadding && padding && startOfLastMetaDataBlock) {
                 // if appending padding, ensure the last flag of the last "METADATA_BLOCK_HEADER" is not set
                 flacMetaData.seekg(startOfLastMetaDataBlock);
                 flacMetaData.seekp(startOfLastMetaDataBlock);
@@ -1853,7 +1855,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             outputStream << flacMetaData.rdbuf();
 
             // write padding
-            if (padding) {
+            if (flacPadding && padding) {
                 flacStream->makePadding(outputStream, static_cast<std::uint32_t>(padding), true, diag);
             }
         }
-- 
2.43.0


From 43b318aec3a73b6e6ebbdd72f11abacdf8b78245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 033/156] fix: write only actual covers to FLAC streams and
 reject those exceeding the block size

---
 flac/flacstream.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index c2eee3c..3d26422 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -260,15 +260,22 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     }
     header.setType(FlacMetaDataBlockType::Picture);
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
-    for (auto i = coverFields.first; i != coverFields.second;) {
+    for (auto i = coverFields.first; i != coverFields.second; ++i) {
+        if (i->second.value().isEmpty()) {
+            continue;
+        }
         const auto lastCoverStartOffset = outputStream.tellp();
 
         try {
             // write the structure
             FlacMetaDataBlockPicture pictureBlock(i->second.value());
             pictureBlock.setPictureType(i->second.typeInfo());
-            header.setDataSize(pictureBlock.requiredSize());
-            header.setLast(++i == coverFields.second);
+            const auto requiredSize = pictureBlock.requiredSize();
+            if (requiredSize > 0xFFFFFF) {
+                throw InvalidDataException();
+            }
+            header.setDataSize(requiredSize);
+            header.setLast(false); // adjusted later
             header.makeHeader(outputStream);
             pictureBlock.make(outputStream);
 
-- 
2.43.0


From 0df70841c966dfb9cad9a982cee8603c81722135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:05 +0000
Subject: [PATCH 034/156] fix: reset whether last segment is unconcluded when
 re-using an OggPage

---
 ogg/oggpage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogg/oggpage.cpp b/ogg/oggpage.cpp
index 3cf92b8..176994f 100644
--- a/ogg/oggpage.cpp
+++ b/ogg/oggpage.cpp
@@ -46,6 +46,7 @@ void OggPage::parseHeader(istream &stream, std::uint64_t startOffset, std::int32
     m_sequenceNumber = reader.readUInt32LE();
     m_checksum = reader.readUInt32LE();
     m_segmentCount = reader.readByte();
+    m_lastSegmentUnconcluded = false;
     m_segmentSizes.clear();
     if (m_segmentCount > 0) {
         if (maxSize < m_segmentCount) {
-- 
2.43.0


From a9e242cc5880e36b3ea694ab8d707be5234cd794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:05 +0000
Subject: [PATCH 035/156] fix: start reading at the beginning of the segment
 the OggIterator is set to

---
 ogg/oggiterator.cpp | 2 +-
 ogg/oggiterator.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..572c8dc 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -45,7 +45,7 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
  */
 void OggIterator::reset()
 {
-    for (m_page = m_segment = m_offset = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
+    for (m_page = m_segment = m_offset = m_bytesRead = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
         const OggPage &page = m_pages[m_page];
         if (!page.segmentSizes().empty() && matchesFilter(page)) {
             // page is not empty and matches ID filter if set
diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index c76a06f..f01c30b 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -183,7 +183,7 @@ inline std::vector<OggPage>::size_type OggIterator::currentPageIndex() const
 inline void OggIterator::setPageIndex(std::vector<OggPage>::size_type index)
 {
     const OggPage &page = m_pages[m_page = index];
-    m_segment = 0;
+    m_segment = m_bytesRead = 0;
     m_offset = page.startOffset() + page.headerSize();
 }
 
@@ -196,6 +196,7 @@ inline void OggIterator::setSegmentIndex(std::vector<std::uint32_t>::size_type i
 {
     const OggPage &page = m_pages[m_page];
     m_offset = page.dataOffset(m_segment = index);
+    m_bytesRead = 0;
 }
 
 /*!
-- 
2.43.0


From 14c35cf49ce4bcf01a93fccb97ee38eb6e86c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:05 +0000
Subject: [PATCH 036/156] fix: consider empty pages and segment sizes correctly
 when going back with OggIterator

---
 ogg/oggiterator.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 572c8dc..31a48a9 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -97,13 +97,18 @@ void OggIterator::nextSegment()
  */
 void OggIterator::previousPage()
 {
-    while (m_page) {
-        const OggPage &page = m_pages[--m_page];
-        if (matchesFilter(page)) {
+    for (auto index = m_page; index;) {
+        const OggPage &page = m_pages[--index];
+        if (!page.segmentSizes().empty() && matchesFilter(page)) {
+            // page is not empty and matches ID filter if set
+            m_page = index;
             m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
+            m_bytesRead = 0;
             return;
         }
     }
+    // no previous page available -> iterator is in invalid state
+    m_page = m_pages.size();
 }
 
 /*!
@@ -114,7 +119,8 @@ void OggIterator::previousSegment()
 {
     const OggPage &page = m_pages[m_page];
     if (m_segment && matchesFilter(page)) {
-        m_offset -= page.segmentSizes()[m_segment--];
+        m_offset -= page.segmentSizes()[--m_segment];
+        m_bytesRead = 0;
     } else {
         previousPage();
     }
-- 
2.43.0


From e9b6607ede40c9f56c7bbe4a0f403cea7d752ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:05 +0000
Subject: [PATCH 037/156] fix: respect the end of the stream when searching for
 the next Ogg page

---
 ogg/oggiterator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 31a48a9..4c96671 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -250,7 +250,8 @@ bool OggIterator::resyncAt(std::uint64_t offset)
     // find capture pattern 'OggS'
     stream().seekg(static_cast<streamoff>(offset));
     std::uint8_t lettersFound = 0;
-    for (std::uint64_t bytesAvailable = max<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
+    const auto endOffset = min<std::uint64_t>(streamSize(), offset + 65307ul + 4ul);
+    for (auto currentOffset = offset; currentOffset < endOffset; ++currentOffset) {
         switch (static_cast<char>(stream().get())) {
         case 'O':
             lettersFound = 1;
@@ -261,16 +262,17 @@ bool OggIterator::resyncAt(std::uint64_t offset)
         case 'S':
             if (lettersFound == 3) {
                 // capture pattern found
-                const auto currentOffset = stream().tellg();
+                const auto pageOffset = currentOffset - 3;
+                const auto bytesAvailable = streamSize() - pageOffset;
                 // -> try to parse an Ogg page at this position
                 try {
-                    m_pages.emplace_back(stream(), static_cast<std::uint64_t>(stream().tellg()) - 4,
+                    m_pages.emplace_back(stream(), pageOffset,
                         bytesAvailable > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
                                                                              : static_cast<std::int32_t>(bytesAvailable));
                     setPageIndex(m_pages.size() - 1);
                     return true;
                 } catch (const Failure &) {
-                    stream().seekg(currentOffset);
+                    stream().seekg(static_cast<streamoff>(currentOffset + 1));
                 }
             }
             [[fallthrough]];
-- 
2.43.0


From 3cf7b1fb3c9ade6e1378c9c9cedcbfcc4e2c4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 038/156] fix: determine the extent of Vorbis comments in Ogg
 streams via the segment table

---
 ogg/oggcontainer.cpp     | 25 ++++++++++++++++++++-----
 vorbis/vorbiscomment.cpp |  9 +++++----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index a8348c4..557ac6d 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -288,7 +288,23 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         OggParameter &params = comment->oggParams();
         m_iterator.setPageIndex(params.firstPageIndex);
         m_iterator.setSegmentIndex(params.firstSegmentIndex);
-        m_iterator.setFilter(m_iterator.currentPage().streamSerialNumber());
+        const auto serialNumber = m_iterator.currentPage().streamSerialNumber();
+        m_iterator.setFilter(serialNumber);
+        // determine the last segment of the packet containing the comment
+        for (;;) {
+            params.lastPageIndex = m_iterator.currentPageIndex();
+            params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+            if (const auto &page = m_iterator.currentPage();
+                params.lastSegmentIndex + 1 < page.segmentSizes().size() || !page.isLastSegmentUnconcluded()) {
+                break;
+            }
+            m_iterator.nextPage();
+            if (!m_iterator) {
+                break;
+            }
+        }
+        m_iterator.setPageIndex(params.firstPageIndex);
+        m_iterator.setSegmentIndex(params.firstSegmentIndex);
         const auto startOffset = m_iterator.startOffset();
         const auto context = argsToString("parsing tag in Ogg page at ", startOffset);
         auto padding = std::uint64_t();
@@ -308,8 +324,6 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         default:
             diag.emplace_back(DiagLevel::Critical, "Stream format not supported.", context);
         }
-        params.lastPageIndex = m_iterator.currentPageIndex();
-        params.lastSegmentIndex = m_iterator.currentSegmentIndex();
         fileInfo().reportPaddingSizeChanged(fileInfo().paddingSize() + padding);
 
         // do a few sanity checks on the continued-flag and absolute granule position as some Ogg demuxers are picky about them
@@ -317,7 +331,8 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         if (params.firstPageIndex != params.lastPageIndex) {
             const auto pageCount = params.lastPageIndex - params.firstPageIndex;
             for (auto i = params.firstPageIndex; i < params.lastPageIndex; ++i) {
-                if (const auto &page = m_iterator.pages()[i]; page.absoluteGranulePosition() != noPacketsFinishOnPage) {
+                if (const auto &page = m_iterator.pages()[i];
+                    page.matchesStreamSerialNumber(serialNumber) && page.absoluteGranulePosition() != noPacketsFinishOnPage) {
                     diag.emplace_back(DiagLevel::Warning,
                         argsToString("Tag spans over ", pageCount, " pages but absolute granule position of unfinished page at ", page.startOffset(),
                             " is not set to \"-1\" (it is ", page.absoluteGranulePosition(), ")."),
@@ -325,7 +340,7 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
                 }
             }
             for (auto i = params.firstPageIndex + 1; i <= params.lastPageIndex; ++i) {
-                if (const auto &page = m_iterator.pages()[i]; !page.isContinued()) {
+                if (const auto &page = m_iterator.pages()[i]; page.matchesStreamSerialNumber(serialNumber) && !page.isContinued()) {
                     diag.emplace_back(DiagLevel::Warning,
                         argsToString("The tag is continued in Ogg page at ", page.startOffset(), " but this page is not marked as continued packet."),
                         context);
diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 60571e0..21afc52 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -307,11 +307,12 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
         auto bytesRemaining = std::uint64_t();
         if (stream) {
             bytesRemaining = stream.remainingBytesInCurrentSegment();
-            if (stream.currentPage().isLastSegmentUnconcluded()) {
-                stream.nextSegment();
-                if (stream) {
-                    bytesRemaining += stream.remainingBytesInCurrentSegment();
+            while (stream.currentSegmentIndex() + 1 == stream.currentPage().segmentSizes().size() && stream.currentPage().isLastSegmentUnconcluded()) {
+                stream.nextPage();
+                if (!stream) {
+                    break;
                 }
+                bytesRemaining += stream.remainingBytesInCurrentSegment();
             }
         }
         if (bytesRemaining) {
-- 
2.43.0


From b602ba5a76565aeccf0cb6565edf31b3cfd488b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 039/156] fix: avoid incrementing invalid iterator when parsing
 truncated FLAC streams in Ogg files

---
 ogg/oggstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index dd83fce..2caacda 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -223,6 +223,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     } else {
                         diag.emplace_back(
                             DiagLevel::Critical, "No more Ogg pages after FLAC-to-Ogg mapping header (Vorbis comment expected).", context);
+                        break;
                     }
                 }
 
-- 
2.43.0


From 974461d97a021d7970f189a8703e767543dff939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 040/156] fix: avoid parsing Ogg comments which have just been
 created

---
 ogg/oggcontainer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 557ac6d..5ca6481 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -286,6 +286,9 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
     }
     for (auto &comment : m_tags) {
         OggParameter &params = comment->oggParams();
+        if (params.firstSegmentIndex == numeric_limits<size_t>::max()) {
+            continue; // comment has just been created and is not present in the file yet
+        }
         m_iterator.setPageIndex(params.firstPageIndex);
         m_iterator.setSegmentIndex(params.firstSegmentIndex);
         const auto serialNumber = m_iterator.currentPage().streamSerialNumber();
-- 
2.43.0


From 670bd448901f5f20900245866e134fef346b6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 041/156] fix: write Ogg pages correctly if packets span
 multiple pages, with multiple streams and empty pages

---
 ogg/oggcontainer.cpp | 290 ++++++++++++++++++++-----------------------
 1 file changed, 138 insertions(+), 152 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 5ca6481..0e5ee68 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -10,8 +10,10 @@
 #include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/io/copy.h>
 
+#include <algorithm>
 #include <limits>
 #include <memory>
+#include <unordered_set>
 
 using namespace std;
 using namespace CppUtilities;
@@ -476,26 +478,63 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     try {
         progress.nextStepOrStop("Writing Ogg pages ...");
 
-        // prepare iterating comments
-        OggVorbisComment *currentComment;
-        OggParameter *currentParams;
-        auto tagIterator = m_tags.cbegin(), tagEnd = m_tags.cend();
-        if (tagIterator != tagEnd) {
-            currentParams = &(currentComment = tagIterator->get())->oggParams();
-        } else {
-            currentComment = nullptr;
-            currentParams = nullptr;
+        // prepare finding the comment of the stream a page belongs to
+        auto commentsBySerialNo = std::unordered_map<std::uint32_t, OggVorbisComment *>();
+        for (const auto &tag : m_tags) {
+            commentsBySerialNo.emplace(m_iterator.pages()[tag->oggParams().firstPageIndex].streamSerialNumber(), tag.get());
         }
 
         // define misc variables
-        const OggPage *lastPage = nullptr;
         static constexpr auto oggPageHeaderSize = 27u;
         auto lastPageNewOffset = std::uint64_t();
+        auto lastPageNewOffsetBySerialNo = std::unordered_map<std::uint32_t, std::uint64_t>();
+        auto concludedStreams = std::unordered_set<std::uint32_t>();
         auto copyHelper = CopyHelper<65307>();
         auto updatedPageOffsets = std::vector<std::uint64_t>();
         auto nextPageOffset = std::uint64_t();
         auto pageSequenceNumberBySerialNo = std::unordered_map<std::uint32_t, std::uint32_t>();
 
+        auto nextPageIndex = std::size_t();
+
+        // define function to copy a page (only adjusting its sequence number if required)
+        const auto copyPage = [&](const OggPage &page) {
+            auto &pageSequenceNumber = pageSequenceNumberBySerialNo[page.streamSerialNumber()];
+            lastPageNewOffsetBySerialNo[page.streamSerialNumber()] = lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+            backupStream.seekg(static_cast<streamoff>(page.startOffset()));
+            if (pageSequenceNumber != page.sequenceNumber()) {
+                // just update page sequence number
+                updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
+                copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
+                stream().seekp(-9, ios_base::cur);
+                writer().writeUInt32LE(pageSequenceNumber);
+                stream().seekp(5, ios_base::cur);
+                copyHelper.copy(backupStream, stream(), page.totalSize() - oggPageHeaderSize);
+            } else {
+                // copy page unchanged
+                copyHelper.copy(backupStream, stream(), page.totalSize());
+            }
+            ++pageSequenceNumber;
+        };
+        // define function to take over a page (invoked for each page before it is copied or rewritten)
+        const auto considerPage = [&](const OggPage &page) {
+            nextPageOffset = page.startOffset() + page.totalSize();
+            ++nextPageIndex;
+            if (page.isLastPage()) {
+                concludedStreams.emplace(page.streamSerialNumber());
+            }
+        };
+        // define function to copy empty pages which are skipped by the iterator
+        const auto copyEmptyPages = [&](std::size_t endIndex) {
+            while (nextPageIndex < endIndex) {
+                const auto &page = m_iterator.pages()[nextPageIndex];
+                if (!page.segmentSizes().empty() || (nextPageIndex && page.startOffset() != nextPageOffset)) {
+                    break;
+                }
+                considerPage(page);
+                copyPage(page);
+            }
+        };
+
         // iterate through all pages of the original file
         auto updateTick = 0u;
         for (m_iterator.setStream(backupStream), m_iterator.removeFilter(), m_iterator.reset(); m_iterator; m_iterator.nextPage(), ++updateTick) {
@@ -505,11 +544,14 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 progress.stopIfAborted();
             }
 
+            // copy empty pages skipped by the iterator
+            copyEmptyPages(m_iterator.currentPageIndex());
+
             // check for gaps
             // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
             //       unless a full parse has been enforced.
-            if (lastPage && currentPage.startOffset() != nextPageOffset) {
-                m_iterator.pages().resize(m_iterator.currentPageIndex() - 1); // drop all further pages after the last consecutively parsed one
+            if (nextPageIndex && currentPage.startOffset() != nextPageOffset) {
+                m_iterator.pages().resize(nextPageIndex); // drop all further pages after the last consecutively parsed one
                 if (m_iterator.resyncAt(nextPageOffset)) {
                     // try again at the page we've just found
                     const auto actuallyNextPageOffset = m_iterator.currentPageOffset();
@@ -530,13 +572,13 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     break;
                 }
             }
-            const auto pageSize = currentPage.totalSize();
+            considerPage(currentPage);
             auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
-            lastPage = &currentPage;
-            lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
-            nextPageOffset = currentPage.startOffset() + pageSize;
 
             // check whether the Vorbis Comment is present in this Ogg page
+            const auto commentIterator = commentsBySerialNo.find(currentPage.streamSerialNumber());
+            auto *const currentComment = commentIterator != commentsBySerialNo.end() ? commentIterator->second : nullptr;
+            auto *const currentParams = currentComment ? &currentComment->oggParams() : nullptr;
             if (currentComment && m_iterator.currentPageIndex() >= currentParams->firstPageIndex
                 && m_iterator.currentPageIndex() <= currentParams->lastPageIndex && !currentPage.segmentSizes().empty()) {
                 // page needs to be rewritten (not just copied)
@@ -546,165 +588,106 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newSegmentSizes.reserve(currentPage.segmentSizes().size());
                 auto segmentOffset = m_iterator.currentSegmentOffset();
                 auto segmentIndex = std::vector<std::uint32_t>::size_type();
+                auto firstSegmentCopied = false, lastSegmentCopied = false;
                 for (const auto segmentSize : currentPage.segmentSizes()) {
-                    if (!segmentSize) {
-                        ++segmentIndex;
-                        continue;
-                    }
                     // check whether this segment contains the Vorbis Comment
-                    if (currentParams
-                        && (m_iterator.currentPageIndex() >= currentParams->firstPageIndex && segmentIndex >= currentParams->firstSegmentIndex)
-                        && (m_iterator.currentPageIndex() <= currentParams->lastPageIndex && segmentIndex <= currentParams->lastSegmentIndex)) {
+                    if ((m_iterator.currentPageIndex() > currentParams->firstPageIndex || segmentIndex >= currentParams->firstSegmentIndex)
+                        && (m_iterator.currentPageIndex() < currentParams->lastPageIndex || segmentIndex <= currentParams->lastSegmentIndex)) {
                         // prevent making the comment twice if it spreads over multiple pages/segments
                         if (!currentParams->removed
-                            && ((m_iterator.currentPageIndex() == currentParams->firstPageIndex
-                                && m_iterator.currentSegmentIndex() == currentParams->firstSegmentIndex))) {
+                            && (m_iterator.currentPageIndex() == currentParams->firstPageIndex
+                                && segmentIndex == currentParams->firstSegmentIndex)) {
                             makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
                         }
-
-                        // proceed with next comment?
-                        if (m_iterator.currentPageIndex() > currentParams->lastPageIndex
-                            || (m_iterator.currentPageIndex() == currentParams->lastPageIndex && segmentIndex > currentParams->lastSegmentIndex)) {
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
-                        }
+                        lastSegmentCopied = false;
                     } else {
                         // copy other segments unchanged
                         backupStream.seekg(static_cast<std::streamoff>(segmentOffset));
                         copyHelper.copy(backupStream, buffer, segmentSize);
                         newSegmentSizes.push_back(segmentSize);
+                        firstSegmentCopied = firstSegmentCopied || !segmentIndex;
+                        lastSegmentCopied = true;
 
-                        // check whether there is a new comment to be inserted into the current page
-                        if (currentParams && m_iterator.currentPageIndex() == currentParams->lastPageIndex
-                            && currentParams->firstSegmentIndex == numeric_limits<size_t>::max()) {
-                            if (!currentParams->removed) {
-                                makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
-                            }
-                            // proceed with next comment
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
+                        // check whether there is a new comment to be inserted into the current page (after its first segment)
+                        if (!segmentIndex && currentParams->firstSegmentIndex == numeric_limits<size_t>::max() && !currentParams->removed) {
+                            makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
+                            lastSegmentCopied = false;
                         }
                     }
                     segmentOffset += segmentSize;
                     ++segmentIndex;
                 }
 
-                // write buffered data to actual stream
-                if (auto newSegmentSizesIterator = newSegmentSizes.cbegin(), newSegmentSizesEnd = newSegmentSizes.cend();
-                    newSegmentSizesIterator != newSegmentSizesEnd) {
-                    auto bytesLeft = *newSegmentSizesIterator;
-                    auto continuePreviousSegment = false, needsZeroLacingValue = false;
-                    // write pages until all data in the buffer is written
-                    while (newSegmentSizesIterator != newSegmentSizesEnd) {
-                        // memorize offset to update checksum later
-                        updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
-                        // copy page header from original file (except for the segment table)
-                        backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                        copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
-                        // use flags of original page as base and adjust "continued packet"-flag as needed
-                        auto flags = (currentPage.headerTypeFlag() & 0xFE) | (continuePreviousSegment ? 0x01 : 0x00);
-                        continuePreviousSegment = true;
-                        // ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
-                        // ensure "last page of logical bitstream"-flag is cleared for the first page
-                        flags = flags & (newSegmentSizesIterator != newSegmentSizes.cbegin() ? 0xFD : 0xF);
-                        // override flags copied from original file
-                        stream().seekp(-22, ios_base::cur);
-                        stream().put(static_cast<char>(flags));
-                        // update absolute granule position later (8 byte) and keep stream serial number (4 byte)
-                        stream().seekp(12, ios_base::cur);
-                        // adjust page sequence number
-                        writer().writeUInt32LE(pageSequenceNumber);
-                        // skip checksum (4 bytes) and number of page segments (1 byte); those are update later
-                        stream().seekp(5, ios_base::cur);
-                        // write segment sizes as long as there are segment sizes to be written and
-                        // the max number of segment sizes (255) is not exceeded
-                        auto segmentSizesWritten = std::int16_t(); // in the current page header only
-                        auto currentSize = std::uint32_t();
-                        while ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                            while (bytesLeft > 0xFF && segmentSizesWritten < 0xFF) {
-                                stream().put(static_cast<char>(0xFF));
-                                currentSize += 0xFF;
-                                bytesLeft -= 0xFF;
-                                ++segmentSizesWritten;
-                            }
-                            if ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
-                                // bytes left is here <= 0xFF
-                                stream().put(static_cast<char>(bytesLeft));
-                                currentSize += bytesLeft;
-                                needsZeroLacingValue = bytesLeft == 0xFF;
-                                bytesLeft = 0;
-                                ++segmentSizesWritten;
-                            }
-                            if (!bytesLeft && !needsZeroLacingValue) {
-                                // sizes for the segment have been written
-                                // -> continue with next segment
-                                if (++newSegmentSizesIterator != newSegmentSizesEnd) {
-                                    bytesLeft = *newSegmentSizesIterator;
-                                    continuePreviousSegment = false;
-                                }
-                            }
-                        }
-
-                        // remove continue flag if there are no bytes left in the current segment
-                        if (!bytesLeft && !needsZeroLacingValue) {
-                            continuePreviousSegment = false;
-                        }
-
-                        // set the absolute granule postion
-                        if (newSegmentSizesIterator != newSegmentSizesEnd) {
-                            // set absolute granule position to special value "-1" if there are still bytes to be written in the current packet
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            writer().writeInt64LE(-1);
-                            stream().seekp(12, ios_base::cur);
-                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
-                            // ensure the written absolute granule position matches the one from the last page of the existing file
-                            backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            copyHelper.copy(backupStream, stream(), 8);
-                            stream().seekp(12, ios_base::cur);
-                        } else {
-                            // leave the absolute granule position unchanged
-                            stream().seekp(-1 - segmentSizesWritten, ios_base::cur);
-                        }
-
-                        // page is full or all segment data has been covered
-                        // -> write segment table size (segmentSizesWritten) and segment data
-                        // -> seek back and write updated page segment number
-                        stream().put(static_cast<char>(segmentSizesWritten));
-                        stream().seekp(segmentSizesWritten, ios_base::cur);
-                        // -> write actual page data
-                        copyHelper.copy(buffer, stream(), currentSize);
-
-                        ++pageSequenceNumber;
+                // determine lacing values for the segments
+                auto lacingValues = std::vector<std::uint8_t>();
+                for (auto segmentSize : newSegmentSizes) {
+                    for (; segmentSize >= 0xFF; segmentSize -= 0xFF) {
+                        lacingValues.push_back(0xFF);
                     }
+                    lacingValues.push_back(static_cast<std::uint8_t>(segmentSize));
+                }
+                if (lastSegmentCopied && currentPage.isLastSegmentUnconcluded()) {
+                    // the packet of the last segment is continued on the next page
+                    lacingValues.pop_back();
                 }
 
-            } else {
-                if (pageSequenceNumber != m_iterator.currentPageIndex()) {
-                    // just update page sequence number
+                // determine absolute granule position to be used if the original page did not finish any packet but the new one does
+                auto granulePositionAfterComment = m_iterator.pages()[currentParams->lastPageIndex].absoluteGranulePosition();
+                if (granulePositionAfterComment == std::numeric_limits<std::uint64_t>::max()) {
+                    granulePositionAfterComment = 0;
+                }
+
+                // write pages until all data in the buffer is written
+                auto continued = firstSegmentCopied && currentPage.isContinued();
+                for (auto i = lacingValues.cbegin(), end = lacingValues.cend(); i != end; ++pageSequenceNumber) {
+                    const auto pageEnd = i + min<std::ptrdiff_t>(end - i, 0xFF);
+                    // memorize offset to update checksum later
+                    updatedPageOffsets.push_back(lastPageNewOffsetBySerialNo[currentPage.streamSerialNumber()]
+                        = lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp()));
+                    // use flags of original page as base and adjust "continued packet"-flag as needed
+                    auto flags = static_cast<std::uint8_t>((currentPage.headerTypeFlag() & 0xFE) | (continued ? 0x01 : 0x00));
+                    // ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
+                    if (i != lacingValues.cbegin()) {
+                        flags &= 0xFD;
+                    }
+                    // ensure "last page of logical bitstream"-flag is cleared for all pages but the last one
+                    if (pageEnd != end) {
+                        flags &= 0xFB;
+                    }
+                    // determine absolute granule position
+                    // - use the special value "-1" if no packet finishes on this page
+                    // - otherwise ensure it matches the one from the last page of the comment
+                    auto granulePosition = currentPage.absoluteGranulePosition();
+                    if (std::all_of(i, pageEnd, [](std::uint8_t lacingValue) { return lacingValue == 0xFF; })) {
+                        granulePosition = std::numeric_limits<std::uint64_t>::max();
+                    } else if (granulePosition == std::numeric_limits<std::uint64_t>::max()) {
+                        granulePosition = granulePositionAfterComment;
+                    }
+                    // copy page header from original file (except for the segment table) and override it as needed
                     backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp())); // memorize offset to update checksum later
                     copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
-                    stream().seekp(-9, ios_base::cur);
+                    stream().seekp(-22, ios_base::cur);
+                    stream().put(static_cast<char>(flags));
+                    writer().writeUInt64LE(granulePosition);
+                    stream().seekp(4, ios_base::cur); // keep stream serial number
                     writer().writeUInt32LE(pageSequenceNumber);
-                    stream().seekp(5, ios_base::cur);
-                    copyHelper.copy(backupStream, stream(), pageSize - oggPageHeaderSize);
-                } else {
-                    // copy page unchanged
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    copyHelper.copy(backupStream, stream(), pageSize);
+                    stream().seekp(4, ios_base::cur); // checksum is updated later
+                    // write segment table and actual page data
+                    stream().put(static_cast<char>(pageEnd - i));
+                    auto dataSize = std::uint32_t();
+                    for (; i != pageEnd; ++i) {
+                        stream().put(static_cast<char>(*i));
+                        dataSize += *i;
+                    }
+                    copyHelper.copy(buffer, stream(), dataSize);
+                    continued = *(pageEnd - 1) == 0xFF;
                 }
-                ++pageSequenceNumber;
+
+            } else {
+                copyPage(currentPage);
             }
         }
+        copyEmptyPages(m_iterator.pages().size());
 
         // report new size
         fileInfo().reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
@@ -722,12 +705,15 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         fileInfo().close();
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
 
-        // ensure the "last page of logical bitstream"-flag is set on the last Ogg page (in case the last page was written/modified by us)
-        if (lastPage && lastPageNewOffset) {
-            const auto offset = static_cast<std::streamoff>(lastPageNewOffset + 5ul);
+        // ensure the "last page of logical bitstream"-flag is set on the last Ogg page of each stream (in case the last page was written/modified by us)
+        for (const auto &[serialNumber, pageOffset] : lastPageNewOffsetBySerialNo) {
+            if (pageOffset != lastPageNewOffset && concludedStreams.find(serialNumber) == concludedStreams.cend()) {
+                continue;
+            }
+            const auto offset = static_cast<std::streamoff>(pageOffset + 5ul);
             stream.seekg(offset);
             if (const auto flag = stream.get(); !(flag & 0x04)) {
-                updatedPageOffsets.emplace_back(lastPageNewOffset);
+                updatedPageOffsets.emplace_back(pageOffset);
                 stream.seekp(offset);
                 stream.put(static_cast<char>(flag | 0x04));
             }
-- 
2.43.0


From bff20be3e7cee353ffe8bbbb16a85191b4bb1739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 042/156] fix: compute duration of Opus streams independently
 of the sampling frequency of the original input

---
 ogg/oggstream.cpp | 8 ++++----
 ogg/oggstream.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index 2caacda..a277118 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -144,7 +144,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_version = ind.version();
                     m_channelCount = ind.channels();
                     m_samplingFrequency = ind.sampleRate();
-                    calculateDurationViaSampleCount(ind.preSkip());
+                    calculateDurationViaSampleCount(ind.preSkip(), 48000); // granule positions of Opus streams are always in 48 kHz
                     hasIdentificationHeader = true;
                 } else {
                     diag.emplace_back(
@@ -289,7 +289,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
 }
 
-void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
+void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip, std::uint32_t granuleRate)
 {
     // define predicate for finding pages of this stream by its stream serial number
     const auto pred = bind(&OggPage::matchesStreamSerialNumber, _1, m_id);
@@ -312,8 +312,8 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     }
 
     // actually calculate the duration
-    if (m_sampleCount && m_samplingFrequency != 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+    if (const auto rate = granuleRate ? static_cast<double>(granuleRate) : static_cast<double>(m_samplingFrequency); m_sampleCount && rate != 0.0) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / rate);
     }
 }
 
diff --git a/ogg/oggstream.h b/ogg/oggstream.h
index 11d85e0..25787ad 100644
--- a/ogg/oggstream.h
+++ b/ogg/oggstream.h
@@ -24,7 +24,7 @@ protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
 
 private:
-    void calculateDurationViaSampleCount(std::uint16_t preSkip = 0);
+    void calculateDurationViaSampleCount(std::uint16_t preSkip = 0, std::uint32_t granuleRate = 0);
 
     std::size_t m_startPage;
     OggContainer &m_container;
-- 
2.43.0


From 019d31ec897d8ed2265d7d8951a8e1912fdb5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:28 +0000
Subject: [PATCH 043/156] fix: ignore granule position of Ogg pages on which no
 packet finishes when computing the duration

---
 ogg/oggstream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index a277118..dd46a5d 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -16,6 +16,7 @@
 
 #include <functional>
 #include <iostream>
+#include <limits>
 
 using namespace std;
 using namespace std::placeholders;
@@ -299,8 +300,11 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip, std::uint
     if (!m_sampleCount && iterator.isLastPageFetched()) {
         const auto &pages = iterator.pages();
         const auto firstPage = find_if(pages.cbegin(), pages.cend(), pred);
-        const auto lastPage = find_if(pages.crbegin(), pages.crend(), pred);
-        if (firstPage != pages.cend() && lastPage != pages.crend()) {
+        const auto lastPage = find_if(pages.crbegin(), pages.crend(), [&pred](const OggPage &page) {
+            // ignore pages on which no packet finishes
+            return pred(page) && page.absoluteGranulePosition() != std::numeric_limits<std::uint64_t>::max();
+        });
+        if (firstPage != pages.cend() && lastPage != pages.crend() && lastPage->absoluteGranulePosition() >= firstPage->absoluteGranulePosition()) {
             m_sampleCount = lastPage->absoluteGranulePosition() - firstPage->absoluteGranulePosition();
             // must apply "pre-skip" here to calculate effective sample count and duration?
             if (m_sampleCount > preSkip) {
-- 
2.43.0


From cb71d41b93b5d3cda1946f69dff0d25b237b4dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:30 +0000
Subject: [PATCH 044/156] fix: avoid warning about missing Ogg pages in case of
 empty pages

---
 ogg/oggcontainer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 0e5ee68..fca9708 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -193,6 +193,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
 
     static const auto context = std::string("parsing Ogg bitstream header");
     auto pagesSkipped = false, continueFromHere = false;
+    auto nextPageIndex = std::size_t();
 
     // iterate through pages using OggIterator helper class
     try {
@@ -200,6 +201,17 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
         for (m_iterator.removeFilter(), m_iterator.reset(); m_iterator;
             continueFromHere ? [&] { continueFromHere = false; }() : m_iterator.nextPage()) {
             progress.stopIfAborted();
+            // consider sequence numbers of empty pages skipped by the iterator
+            for (; nextPageIndex < m_iterator.currentPageIndex(); ++nextPageIndex) {
+                const auto &emptyPage = m_iterator.pages()[nextPageIndex];
+                if (const auto streamIndex = m_streamsBySerialNo.find(emptyPage.streamSerialNumber()); streamIndex != m_streamsBySerialNo.end()) {
+                    auto &sequenceNumber = m_tracks[streamIndex->second]->m_currentSequenceNumber;
+                    if (sequenceNumber == emptyPage.sequenceNumber()) {
+                        ++sequenceNumber;
+                    }
+                }
+            }
+            nextPageIndex = m_iterator.currentPageIndex() + 1;
             const OggPage &page = m_iterator.currentPage();
             if (m_validateChecksums && page.checksum() != OggPage::computeChecksum(stream(), page.startOffset())) {
                 diag.emplace_back(DiagLevel::Warning,
-- 
2.43.0


From b2d7ed62ae6aef00feeec5601ee888a3f88e3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 045/156] fix: avoid keeping incompletely written MP3/FLAC
 files if aborted when copying data

---
 mediafileinfo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index b901139..4b9bab1 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1883,7 +1883,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             backupStream.seekg(static_cast<streamoff>(streamOffset));
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
-                std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+                std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), _1));
+            progress.stopIfAborted(); // the data has not been copied completely if the operation has been aborted
         } else {
             // just skip actual stream data
             outputStream.seekp(static_cast<std::streamoff>(mediaDataSize), ios_base::cur);
-- 
2.43.0


From c9ade44349e57fc8e0e5b1511094ac16715d6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 046/156] fix: restore original file if re-creating it fails
 after the backup has been created

---
 matroska/matroskacontainer.cpp | 7 +++++--
 mediafileinfo.cpp              | 7 +++++--
 mp4/mp4container.cpp           | 7 +++++--
 ogg/oggcontainer.cpp           | 7 +++++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 22b8c3f..3076e34 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1525,8 +1525,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             // move current file to temp dir and reopen it as backupStream, recreate original file
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -1568,6 +1566,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
     // start actual writing
     try {
+        if (!backupPath.empty()) {
+            // recreate original file
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // write EBML header
         progress.nextStepOrStop("Writing EBML header ...");
         outputWriter.writeUInt32BE(EbmlIds::Header);
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4b9bab1..c42072d 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1791,8 +1791,6 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // move current file to temp dir and reopen it as backupStream, recreate original file
             try {
                 BackupHelper::createBackupFileCanonical(backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -1825,6 +1823,11 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
     // start actual writing
     try {
+        if (!backupPath.empty()) {
+            // recreate original file
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // ensure we can cast padding safely to uint32
         if (padding > numeric_limits<std::uint32_t>::max()) {
             padding = numeric_limits<std::uint32_t>::max();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..b74e302 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -546,8 +546,6 @@ calculatePadding:
             // move current file to temp dir and reopen it as backupStream, recreate original file
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
-                // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -589,6 +587,11 @@ calculatePadding:
 
     // start actual writing
     try {
+        if (!backupPath.empty()) {
+            // recreate original file
+            outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         // write header
         progress.nextStepOrStop("Writing header and tags ...");
         // -> make file type atom
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index fca9708..11c6c77 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -465,8 +465,6 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         // move current file to temp dir and reopen it as backupStream, recreate original file
         try {
             BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, fileInfo().stream(), backupStream);
-            // recreate original file, define buffer variables
-            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(
                 DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
@@ -488,6 +486,11 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
 
     const auto totalFileSize = fileInfo().size();
     try {
+        if (!backupPath.empty()) {
+            // recreate original file
+            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+        }
+
         progress.nextStepOrStop("Writing Ogg pages ...");
 
         // prepare finding the comment of the stream a page belongs to
-- 
2.43.0


From 67fc7a54e9d3dd0d356fada8f83bbe37717bc19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 047/156] fix: report errors of deferred write operations
 instead of ignoring them when closing the file

---
 matroska/matroskacontainer.cpp | 1 +
 mediafileinfo.cpp              | 8 +++++---
 mp4/mp4container.cpp           | 1 +
 ogg/oggcontainer.cpp           | 3 +++
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 3076e34..e8479f2 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1827,6 +1827,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
         // reparse what is written so far
         progress.updateStep("Reparsing output file ...");
+        outputStream.flush(); // closing the stream would not report errors
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index c42072d..4dba336 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1905,6 +1905,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
         // handle streams
         if (rewriteRequired) {
+            // prevent deferring final write operations (to catch and handle possible errors here)
+            outputStream.flush();
             // report new size
             reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
             // "save as path" is now the regular path
@@ -1912,14 +1914,14 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 reportPathChanged(saveFilePath());
                 m_saveFilePath.clear();
             }
-            // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
-            // usage anyways because it is write-only
+            // stream is useless for further usage because it is write-only
             outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
-                // -> prevent deferring final write operations
+                // -> prevent deferring final write operations (closing the stream alone would not report errors)
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index b74e302..a0cf475 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -839,6 +839,7 @@ calculatePadding:
 
         // reparse what is written so far
         progress.updateStep("Reparsing output file ...");
+        outputStream.flush(); // closing the stream would not report errors
         if (rewriteRequired) {
             // report new size
             fileInfo().reportSizeChanged(static_cast<std::uint64_t>(outputStream.tellp()));
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 11c6c77..4346917 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -704,6 +704,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         }
         copyEmptyPages(m_iterator.pages().size());
 
+        // prevent deferring write operations (closing the stream would not report errors)
+        stream().flush();
+
         // report new size
         fileInfo().reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         progress.updateStepPercentage(100);
-- 
2.43.0


From 612e234cd0cebb23a9579cec2b8beb4710f6e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 048/156] fix: restore original file also in case of exceptions
 not derived from Failure

---
 backuphelper.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 3198c9d..899e370 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -215,8 +215,8 @@ void createBackupFileCanonical(const std::string &backupDir, std::string &origin
  * - Adds appropriate notifications to the specified \a fileInfo.
  * - Re-throws the exception.
  *
- * \remarks Must only be called when an exception derived from Failure or ios_base::failure
- *          has been caught; this method uses the "exception dispatcher" idiom.
+ * \remarks Must only be called when an exception has been caught; this method uses the
+ *          "exception dispatcher" idiom.
  *
  * \param fileInfo Specifies the MediaFileInfo instance which has been modified.
  * \param backupPath Specifies the path of the backup file; might be empty if none has been created.
@@ -293,6 +293,21 @@ void handleFailureAfterFileModifiedCanonical(MediaFileInfo &fileInfo, const std:
             diag.emplace_back(DiagLevel::Critical, "An IO error occurred when applying tag information.", context);
         }
         throw;
+
+    } catch (...) {
+        if (!backupPath.empty()) {
+            // a temp/backup file has been created -> restore original file
+            diag.emplace_back(DiagLevel::Critical, "An unexpected error occurred when rewriting the file to apply changed tag information.", context);
+            try {
+                restoreOriginalFileFromBackupFile(originalPath, backupPath, outputStream, backupStream);
+                diag.emplace_back(DiagLevel::Warning, "The original file has been restored.", context);
+            } catch (const std::ios_base::failure &failure) {
+                diag.emplace_back(DiagLevel::Critical, argsToString("The original file could not be restored: ", failure.what()), context);
+            }
+        } else {
+            diag.emplace_back(DiagLevel::Critical, "An unexpected error occurred when applying tag information.", context);
+        }
+        throw;
     }
 }
 
-- 
2.43.0


From a2addbc6832abcfbbe4c7cf6563e9376218ad797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 049/156] fix: consider only the file name when determining the
 extension of a path

---
 basicfileinfo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicfileinfo.cpp b/basicfileinfo.cpp
index f9a4991..539e444 100644
--- a/basicfileinfo.cpp
+++ b/basicfileinfo.cpp
@@ -182,7 +182,7 @@ std::string BasicFileInfo::fileName(bool cutExtension) const
 std::string BasicFileInfo::extension(std::string_view path)
 {
     const auto lastPoint = path.rfind('.');
-    if (lastPoint == std::string::npos) {
+    if (lastPoint == std::string::npos || path.find_first_of("/\\", lastPoint) != std::string::npos) {
         return std::string();
     } else {
         return std::string(path.data() + lastPoint, path.size() - lastPoint);
@@ -203,7 +203,8 @@ std::string BasicFileInfo::extension() const
 std::string BasicFileInfo::pathWithoutExtension(std::string_view fullPath)
 {
     const auto lastPoint = fullPath.rfind('.');
-    return std::string(lastPoint != std::string::npos ? fullPath.substr(0, lastPoint) : fullPath);
+    const auto hasExtension = lastPoint != std::string::npos && fullPath.find_first_of("/\\", lastPoint) == std::string::npos;
+    return std::string(hasExtension ? fullPath.substr(0, lastPoint) : fullPath);
 }
 
 /*!
-- 
2.43.0


From 3e2ca12536bf366d1f45b6f9d2f17faa129ad054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 050/156] fix: avoid using a backup directory in the root
 directory for files specified by a mere name

---
 backuphelper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 899e370..859fe67 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -113,7 +113,7 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
 {
     // determine dirs
     const auto backupDirRelative = std::filesystem::path(makeNativePath(backupDir)).is_relative();
-    const auto originalDir = backupDirRelative ? BasicFileInfo::containingDirectory(originalPath) : string();
+    const auto originalDir = backupDirRelative ? originalPath.substr(0, originalPath.find_last_of("/\\") + 1) : string();
 
     // determine the backup path
     auto ec = std::error_code();
@@ -129,13 +129,13 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
             if (i) {
                 const auto ext(BasicFileInfo::extension(originalPath));
                 if (backupDirRelative) {
-                    backupPath = originalDir % '/' % backupDir % '/' % fileName % '.' % i + ext;
+                    backupPath = originalDir % backupDir % '/' % fileName % '.' % i + ext;
                 } else {
                     backupPath = backupDir % '/' % fileName % '.' % i + ext;
                 }
             } else {
                 if (backupDirRelative) {
-                    backupPath = originalDir % '/' % backupDir % '/' + fileName;
+                    backupPath = originalDir % backupDir % '/' + fileName;
                 } else {
                     backupPath = backupDir % '/' + fileName;
                 }
-- 
2.43.0


From e76643352ef5726d93644de8bc111332c13d8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:14 +0000
Subject: [PATCH 051/156] fix: support file-URLs consistently when applying
 changes to MP4 and Matroska files

---
 matroska/matroskacontainer.cpp | 8 ++++----
 mp4/mp4container.cpp           | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index e8479f2..9b83ca9 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1557,7 +1557,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // reopen original file to ensure it is opened for writing
         try {
             fileInfo().close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Opening the file with write permissions failed: ", failure.what()), context);
             throw;
@@ -1840,7 +1840,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
             // the outputStream needs to be reopened to be able to read again
             outputStream.close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
@@ -1850,14 +1850,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
-                std::filesystem::resize_file(makeNativePath(fileInfo().path()), newSize, ec);
+                std::filesystem::resize_file(makeNativePath(BasicFileInfo::pathForOpen(fileInfo().path())), newSize, ec);
                 if (!ec) {
                     fileInfo().reportSizeChanged(newSize);
                 } else {
                     diag.emplace_back(DiagLevel::Critical, "Unable to truncate the file: " + ec.message(), context);
                 }
                 // -> reopen the stream again
-                outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+                outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             } else {
                 // file is longer after the modification -> just report new size
                 fileInfo().reportSizeChanged(newSize);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index a0cf475..75b3153 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -578,7 +578,7 @@ calculatePadding:
         // reopen original file to ensure it is opened for writing
         try {
             fileInfo().close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Opening the file with write permissions failed: ", failure.what()), context);
             throw;
-- 
2.43.0


From 946fdcb323ab3e120171786136caf8fc89d4da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:04 +0000
Subject: [PATCH 052/156] fix: avoid warning about granule position of Ogg
 pages on which a packet finishes before the comment

---
 ogg/oggcontainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 4346917..b0c0a6b 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -347,7 +347,8 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         static constexpr auto noPacketsFinishOnPage = std::numeric_limits<std::uint64_t>::max();
         if (params.firstPageIndex != params.lastPageIndex) {
             const auto pageCount = params.lastPageIndex - params.firstPageIndex;
-            for (auto i = params.firstPageIndex; i < params.lastPageIndex; ++i) {
+            // note: The absolute granule position of the first page is set if another packet finishes before the comment starts.
+            for (auto i = params.firstSegmentIndex ? params.firstPageIndex + 1 : params.firstPageIndex; i < params.lastPageIndex; ++i) {
                 if (const auto &page = m_iterator.pages()[i];
                     page.matchesStreamSerialNumber(serialNumber) && page.absoluteGranulePosition() != noPacketsFinishOnPage) {
                     diag.emplace_back(DiagLevel::Warning,
-- 
2.43.0


From 8682f7cd1d176e68606cc1caba8d92ee4e045772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:42 +0000
Subject: [PATCH 053/156] fix: support setting ISRC of ID3v2 tags

---
 id3/id3v2tag.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 22f4ab1..c61e5e8 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -202,6 +202,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return lOriginalMediaType;
         case KnownField::Mood:
             return lMood;
+        case KnownField::ISRC:
+            return lISRC;
         case KnownField::InitialKey:
             return lKey;
         case KnownField::PublisherWebpage:
@@ -270,6 +272,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return sCopyright;
         case KnownField::OriginalMediaType:
             return sOriginalMediaType;
+        case KnownField::ISRC:
+            return sISRC;
         case KnownField::InitialKey:
             return sKey;
         case KnownField::PublisherWebpage:
-- 
2.43.0


From 8ab90c67381cb3566d388e0e63046896c8c287e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:32 +0000
Subject: [PATCH 054/156] fix: take over all values when inserting fields of
 another tag of the same format

---
 fieldbasedtag.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 6d95b6c..ec59508 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -5,6 +5,7 @@
 
 #include <functional>
 #include <map>
+#include <unordered_set>
 
 namespace TagParser {
 
@@ -401,6 +402,7 @@ template <class ImplementationType>
 std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBasedTag<ImplementationType> &from, bool overwrite)
 {
     auto fieldsInserted = std::size_t(0);
+    auto newFields = std::unordered_set<const FieldType *>();
     for (const auto &pair : from.fields()) {
         const FieldType &fromField = pair.second;
         if (fromField.value().isEmpty()) {
@@ -410,18 +412,22 @@ std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBas
         auto range = fields().equal_range(fromField.id());
         for (auto i = range.first; i != range.second; ++i) {
             FieldType &ownField = i->second;
+            if (newFields.find(&ownField) != newFields.end()) {
+                continue; // avoid overwriting/discarding further values of the same field
+            }
             if ((fromField.isTypeInfoAssigned() && ownField.isTypeInfoAssigned() && fromField.typeInfo() == ownField.typeInfo())
                 || (!fromField.isTypeInfoAssigned() && !ownField.isTypeInfoAssigned())) {
                 if (overwrite || ownField.value().isEmpty()) {
                     ownField = fromField;
+                    newFields.emplace(&ownField);
                     ++fieldsInserted;
                 }
                 fieldInserted = true;
-                continue;
+                break;
             }
         }
         if (!fieldInserted) {
-            fields().insert(std::make_pair(fromField.id(), fromField));
+            newFields.emplace(&fields().insert(std::make_pair(fromField.id(), fromField))->second);
             ++fieldsInserted;
         }
     }
-- 
2.43.0


From 5295e3b806222bf77625be2737d8d3a0eebe4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:52 +0000
Subject: [PATCH 055/156] fix: handle unknown sizes of EBML elements of any
 length and truncated headers

According to RFC 8794 all bits of the size being set denotes an unknown
size regardless of the size length but only the one byte denotation was
recognized. Besides, the check whether the header fits into the available
space was not done for elements of unknown size so the size computation
could wrap around.
---
 matroska/ebmlelement.cpp | 73 ++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 37 deletions(-)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d1baf02..8600f7a 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -146,46 +146,45 @@ void EbmlElement::internalParse(Diagnostics &diag)
         beg = static_cast<std::uint8_t>(stream().peek());
         mask = 0x80;
         m_sizeLength = 1;
-        if ((m_sizeUnknown = (beg == 0xFF))) {
-            // this indicates that the element size is unknown
-            // -> just assume the element takes the maximum available size
-            m_dataSize = maxTotalSize() - headerSize();
-        } else {
-            while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
-                ++m_sizeLength;
-                mask >>= 1;
-            }
-            if (m_sizeLength > maximumSizeLengthSupported()) {
-                if (!skipped) {
-                    diag.emplace_back(DiagLevel::Critical, "EBML size length is not supported.", parsingContext());
-                }
-                continue; // try again
+        m_sizeUnknown = false;
+        while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
+            ++m_sizeLength;
+            mask >>= 1;
+        }
+        if (m_sizeLength > maximumSizeLengthSupported()) {
+            if (!skipped) {
+                diag.emplace_back(DiagLevel::Critical, "EBML size length is not supported.", parsingContext());
             }
-            if (m_sizeLength > container().maxSizeLength()) {
-                if (!skipped) {
-                    diag.emplace_back(DiagLevel::Critical, "EBML size length is invalid.", parsingContext());
-                }
-                continue; // try again
+            continue; // try again
+        }
+        if (m_sizeLength > container().maxSizeLength()) {
+            if (!skipped) {
+                diag.emplace_back(DiagLevel::Critical, "EBML size length is invalid.", parsingContext());
             }
-            // read size into buffer
-            memset(buf, 0, sizeof(DataSizeType)); // reset buffer
-            reader().read(buf + (maximumSizeLengthSupported() - m_sizeLength), m_sizeLength);
-            // xor the first byte in buffer which has been read from the file with mask
-            *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
-            m_dataSize = BE::toInt<std::uint64_t>(buf);
-            // check if element is truncated
-            if (totalSize() > maxTotalSize()) {
-                if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
-                    if (!skipped) {
-                        diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
-                    }
-                    continue; // try again
-                } else { // data truncated
-                    diag.emplace_back(DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.",
-                        parsingContext());
-                    m_dataSize = maxTotalSize() - m_idLength - m_sizeLength; // using max size instead
-                }
+            continue; // try again
+        }
+        // check whether the header is truncated
+        if (headerSize() > maxTotalSize()) {
+            if (!skipped) {
+                diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
             }
+            continue; // try again
+        }
+        // read size into buffer
+        memset(buf, 0, sizeof(DataSizeType)); // reset buffer
+        reader().read(buf + (maximumSizeLengthSupported() - m_sizeLength), m_sizeLength);
+        // xor the first byte in buffer which has been read from the file with mask
+        *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
+        m_dataSize = BE::toInt<std::uint64_t>(buf);
+        if ((m_sizeUnknown = (m_dataSize == (static_cast<std::uint64_t>(1) << (7 * m_sizeLength)) - 1))) {
+            // all bits being set (regardless of the size length) indicates that the element size is unknown
+            // -> just assume the element takes the maximum available size
+            m_dataSize = maxTotalSize() - headerSize();
+        } else if (totalSize() > maxTotalSize()) {
+            // data truncated
+            diag.emplace_back(DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.",
+                parsingContext());
+            m_dataSize = maxTotalSize() - m_idLength - m_sizeLength; // using max size instead
         }
 
         // check if there's a first child
-- 
2.43.0


From e5d3d4e6ca602f4be9e11fb2f3f446e59338dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 056/156] fix: avoid warning about ratings of Matroska tags
 which precede the value or are empty

---
 matroska/matroskatagfield.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 581e35d..1095a87 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -137,14 +137,14 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
                     "\"SimpleTag\"-element contains unknown element ", child->idToString(), " at ", child->startOffset(), ". It will be ignored."),
                 context);
         }
+    }
 
-        // set rating as Popularity to preserve the scale information
-        if (id() == MatroskaTagIds::rating()) {
-            try {
-                value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
-            } catch (const ConversionException &) {
-                diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
-            }
+    // set rating as Popularity to preserve the scale information
+    if (id() == MatroskaTagIds::rating() && value().type() == TagDataType::Text && !value().isEmpty()) {
+        try {
+            value().assignPopularity(Popularity{ .rating = stringToNumber<double>(value().toString()), .scale = TagType::MatroskaTag });
+        } catch (const ConversionException &) {
+            diag.emplace_back(DiagLevel::Warning, argsToString("The rating is not a number."), context);
         }
     }
 }
-- 
2.43.0


From 97ae995d50589909e22df5315361b0f148a974f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 057/156] fix: compute size of binary fields of Matroska tags
 correctly

---
 matroska/matroskatagfield.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 1095a87..d5b8e38 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -237,6 +237,9 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
     const auto languageIETFElementSize
         = m_languageIETF.empty() ? 0 : (2 + EbmlElement::calculateSizeDenotationLength(m_languageIETF.size()) + m_languageIETF.size());
 
+    // compute size of the "TagString"/"TagBinary" element
+    const auto valueSize = m_isBinary ? m_field.value().dataSize() : m_stringValue.size();
+
     // compute "SimpleTag" element size
     m_simpleTagSize =
         // "TagName" element
@@ -248,8 +251,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         // "TagDefault" element
         + 2 + 1
         + 1
-        // "TagString" element
-        + 2 + EbmlElement::calculateSizeDenotationLength(m_stringValue.size()) + m_stringValue.size();
+        // "TagString"/"TagBinary" element
+        + 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
-- 
2.43.0


From 057070ea916d706d307952275bc1f389e7ba5ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 058/156] fix: preserve fields of Matroska tags which only have
 nested fields

---
 fieldbasedtag.h          | 4 ++++
 matroska/matroskatag.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index ec59508..9dac25b 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -207,6 +207,9 @@ template <class ImplementationType> bool FieldMapBasedTag<ImplementationType>::i
     auto i = m_fields.find(id);
     if (i != m_fields.end()) { // field already exists -> set its value
         i->second.setValue(value);
+        if (value.isEmpty()) {
+            i->second.nestedFields().clear(); // avoid keeping the field just because of its nested fields
+        }
     } else if (!value.isEmpty()) { // field doesn't exist -> create new one if value is not null
         m_fields.insert(std::make_pair(id, FieldType(id, value)));
     } else { // otherwise return false
@@ -243,6 +246,7 @@ bool FieldMapBasedTag<ImplementationType>::internallySetValues(const FieldMapBas
     // remove remaining existing values (there are more existing values than specified ones)
     for (; range.first != range.second; ++range.first) {
         range.first->second.clearValue();
+        range.first->second.nestedFields().clear();
     }
     return true;
 }
diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index d262105..4b02a50 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -461,7 +461,7 @@ MatroskaTagMaker::MatroskaTagMaker(MatroskaTag &tag, Diagnostics &diag)
     m_maker.reserve(m_tag.fields().size());
     m_simpleTagsSize = 0; // including ID and size
     for (auto &pair : m_tag.fields()) {
-        if (pair.second.value().isNull()) {
+        if (pair.second.value().isNull() && pair.second.nestedFields().empty()) {
             continue;
         }
         try {
-- 
2.43.0


From 6cc09a8ab5f6fa2b75a5f451376f23508a4a2a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:36 +0000
Subject: [PATCH 059/156] fix: determine end of EBML elements of unknown size
 so their siblings are accessible

---
 matroska/ebmlelement.cpp | 36 ++++++++++++++++++++++++++++++++++++
 matroska/ebmlelement.h   |  1 +
 2 files changed, 37 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index 8600f7a..5dd28da 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -180,6 +180,7 @@ void EbmlElement::internalParse(Diagnostics &diag)
             // all bits being set (regardless of the size length) indicates that the element size is unknown
             // -> just assume the element takes the maximum available size
             m_dataSize = maxTotalSize() - headerSize();
+            determineUnknownSize();
         } else if (totalSize() > maxTotalSize()) {
             // data truncated
             diag.emplace_back(DiagLevel::Warning, "Data of EBML element seems to be truncated; unable to parse siblings of that element.",
@@ -219,6 +220,41 @@ void EbmlElement::internalParse(Diagnostics &diag)
     throw InvalidDataException();
 }
 
+/*!
+ * \brief Determines the end of the current element by looking for the first element which belongs higher up in the hierarchy.
+ * \remarks
+ * - This is done right when parsing the element so the element can be treated like any other element of known size. Otherwise
+ *   one had to read all children before the next sibling becomes accessible.
+ * - Does nothing for top-level elements; for those it is still assumed that they take the maximum available size.
+ * - If the structure is invalid it is still assumed that the element takes the maximum available size. The problem will be
+ *   reported when actually parsing the children.
+ */
+void EbmlElement::determineUnknownSize()
+{
+    if (!m_parent) {
+        return;
+    }
+    auto diag = Diagnostics();
+    const auto end = endOffset();
+    for (auto offset = dataOffset(); offset < end;) {
+        auto child = EbmlElement(container(), offset, end - offset);
+        try {
+            child.parse(diag);
+        } catch (const Failure &) {
+            return;
+        }
+        if (static_cast<std::uint8_t>(matroskaIdLevel(child.id())) <= level()) {
+            m_dataSize = child.startOffset() - dataOffset();
+            break;
+        }
+        if (child.m_sizeUnknown) {
+            return;
+        }
+        offset = child.endOffset();
+    }
+    m_sizeUnknown = false;
+}
+
 /*!
  * \brief Reads the content of the element as string.
  */
diff --git a/matroska/ebmlelement.h b/matroska/ebmlelement.h
index fd8abcc..e18cfe7 100644
--- a/matroska/ebmlelement.h
+++ b/matroska/ebmlelement.h
@@ -63,6 +63,7 @@ protected:
 
 private:
     std::string parsingContext() const;
+    void determineUnknownSize();
 };
 
 /*!
-- 
2.43.0


From c3e9c6fdbab9a7cf9e92f37918bad713d25ecf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:36 +0000
Subject: [PATCH 060/156] fix: avoid endless padding when 1 byte of padding
 would be required for a Matroska segment

---
 matroska/matroskacontainer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 9b83ca9..7ccc578 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1333,10 +1333,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             }
                             if (totalOffset <= segment.firstClusterElement->startOffset()) {
                                 // calculate new padding
-                                if (segment.newPadding != 1) {
-                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
-                                    newPadding += (segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset);
+                                if ((segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset) != 1) {
+                                    newPadding += segment.newPadding;
                                 } else {
+                                    // "Void"-element is at least 2 byte long -> can't add 1 byte padding
                                     rewriteRequired = true;
                                 }
                             } else {
@@ -1371,8 +1371,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
-                        // simply use the preferred padding
-                        segment.totalDataSize += (segment.newPadding = newPadding = fileInfo().preferredPadding());
+                        // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
+                        newPadding = fileInfo().preferredPadding() == 1 ? 2 : fileInfo().preferredPadding();
+                        segment.totalDataSize += (segment.newPadding = newPadding);
                     }
 
                     // pretend writing "Cluster"-element
-- 
2.43.0


From cea54f92e02fccfa8a0db256b67e40a91e5007db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:36 +0000
Subject: [PATCH 061/156] fix: write references of Matroska cues correctly

---
 matroska/matroskacues.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matroska/matroskacues.cpp b/matroska/matroskacues.cpp
index ff48ec2..a092693 100644
--- a/matroska/matroskacues.cpp
+++ b/matroska/matroskacues.cpp
@@ -330,7 +330,7 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                 break;
                             case MatroskaIds::CueReference:
                                 // write "CueReference"-element
-                                stream.put(static_cast<char>(MatroskaIds::CueRefTime));
+                                stream.put(static_cast<char>(MatroskaIds::CueReference));
                                 len = EbmlElement::makeSizeDenotation(m_sizes[cueTrackPositionsChild], buff);
                                 stream.write(buff, len);
                                 for (EbmlElement *cueReferenceChild = cueTrackPositionsChild->firstChild(); cueReferenceChild;
@@ -345,7 +345,6 @@ void MatroskaCuePositionUpdater::make(ostream &stream, Diagnostics &diag)
                                         // write unchanged children of "CueReference"-element
                                         cueReferenceChild->copyBuffer(stream);
                                         cueReferenceChild->discardBuffer();
-                                        cueReferenceChild->copyEntirely(stream, diag, nullptr);
                                         break;
                                     case MatroskaIds::CueRefCluster:
                                     case MatroskaIds::CueRefCodecState:
-- 
2.43.0


From a03f8d78b0715a2d02216a8de5b99e826b7b5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 062/156] fix: update "Position"-elements of Matroska clusters
 when updating file without rewriting it

---
 matroska/matroskacontainer.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 7ccc578..1895a16 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1757,12 +1757,21 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
                     progress.nextStepOrStop("Updating cluster ...",
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
-                    for (; level1Element; level1Element = level1Element->nextSibling()) {
+                    // -> the positions have only changed if the offset of the segment data has changed
+                    if (segment.newDataOffset == level0Element->dataOffset()) {
+                        level1Element = nullptr;
+                    }
+                    for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag)) {
+                        EbmlElement *crc32Element = nullptr;
                         for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                            level2Element->parse(diag);
                             switch (level2Element->id()) {
+                            case EbmlIds::Crc32:
+                                crc32Element = level2Element;
+                                continue;
                             case MatroskaIds::Position:
                                 // calculate new position
-                                sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
+                                sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segment.newDataOffset, buff,
                                     level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
                                 // new position can only applied if it doesn't need more bytes than the previous position
                                 if (level2Element->dataSize() < sizeLength) {
@@ -1774,9 +1783,19 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     outputStream.seekp(static_cast<streamoff>(level2Element->dataOffset()));
                                     outputStream.write(buff, sizeLength);
                                 }
+                                // void checksum of the cluster as it isn't valid anymore
+                                if (crc32Element) {
+                                    outputStream.seekp(static_cast<streamoff>(crc32Element->startOffset()));
+                                    outputStream.put(static_cast<char>(EbmlIds::Void));
+                                }
                                 break;
-                            default:;
+                            case MatroskaIds::SimpleBlock:
+                            case MatroskaIds::BlockGroup:
+                                break; // "Position"-element is supposed to precede the actual data
+                            default:
+                                continue;
                             }
+                            break;
                         }
                     }
                     // skip existing "Cluster"-elements
-- 
2.43.0


From a62bb88179b10b14f80782a49a0d12a03057b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 063/156] fix: update "PrevSize"-elements of Matroska clusters
 when rewriting file

---
 matroska/matroskacontainer.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 1895a16..cb41b20 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -828,6 +828,14 @@ struct SegmentData {
     }
     SegmentData(SegmentData &&) = default;
 
+    /// \brief Returns the total size of the cluster preceding the cluster with the specified \a index (as written when rewriting the file).
+    std::uint64_t previousClusterSize(std::size_t index) const
+    {
+        return index && index <= clusterSizes.size()
+            ? 4u + EbmlElement::calculateSizeDenotationLength(clusterSizes[index - 1]) + clusterSizes[index - 1]
+            : 0u;
+    }
+
     /// \brief whether CRC-32 checksum is present
     bool hasCrc32;
     /// \brief used to make "SeekHead"-element
@@ -1405,6 +1413,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case MatroskaIds::Position:
                                         clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
                                         break;
+                                    case MatroskaIds::PrevSize:
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.previousClusterSize(index));
+                                        break;
                                     default:
                                         clusterSize += level2Element->totalSize();
                                     }
@@ -1742,6 +1753,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             case MatroskaIds::Position:
                                 EbmlElement::makeSimpleElement(outputStream, MatroskaIds::Position, clusterSize);
                                 break;
+                            case MatroskaIds::PrevSize:
+                                EbmlElement::makeSimpleElement(outputStream, MatroskaIds::PrevSize, segment.previousClusterSize(index));
+                                break;
                             default:
                                 level2Element->copyEntirely(outputStream, diag, nullptr);
                             }
-- 
2.43.0


From 516b119a3e010f06dc3564e6f2ea2f5ad88cb19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:50 +0000
Subject: [PATCH 064/156] fix: handle Matroska files with multiple segments
 when applying changes

* Consider positions relative to the data of the segment they belong to
* Write clusters of all segments when rewriting the file
* Avoid dangling seek information if tags end up in a different segment
---
 matroska/matroskacontainer.cpp | 79 +++++++++++++++-------------------
 1 file changed, 35 insertions(+), 44 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index cb41b20..465b041 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -88,11 +88,12 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
         auto ids = std::unordered_set<EbmlElement::IdentifierType>();
         auto cueTimeFound = false, cueTrackPositionsFound = false;
         auto clusterElement = std::unique_ptr<EbmlElement>();
-        auto pos = std::uint64_t(), prevClusterSize = std::uint64_t(), currentOffset = std::uint64_t();
+        auto pos = std::uint64_t(), prevClusterSize = std::uint64_t();
         // iterate through all segments
         for (EbmlElement *segmentElement = m_firstElement->siblingById(MatroskaIds::Segment, diag); segmentElement;
             segmentElement = segmentElement->siblingById(MatroskaIds::Segment, diag)) {
             segmentElement->parse(diag);
+            prevClusterSize = 0;
             // iterate through all child elements of the segment (only "Cues"- and "Cluster"-elements are relevant for this method)
             for (EbmlElement *segmentChildElement = segmentElement->firstChild(); segmentChildElement;
                 segmentChildElement = segmentChildElement->nextSibling()) {
@@ -169,7 +170,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                                         case MatroskaIds::CueClusterPosition:
                                             // validate "Cluster" position denoted by "CueClusterPosition"-element
                                             clusterElement = make_unique<EbmlElement>(
-                                                *this, segmentElement->dataOffset() + subElement->readUInteger() - currentOffset);
+                                                *this, segmentElement->dataOffset() + subElement->readUInteger());
                                             try {
                                                 clusterElement->parse(diag);
                                                 if (clusterElement->id() != MatroskaIds::Cluster) {
@@ -261,7 +262,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                         case MatroskaIds::Position:
                             // validate position
                             if ((pos = clusterElementChild->readUInteger()) > 0
-                                && (segmentChildElement->startOffset() - segmentElement->dataOffset() + currentOffset) != pos) {
+                                && (segmentChildElement->startOffset() - segmentElement->dataOffset()) != pos) {
                                 diag.emplace_back(DiagLevel::Critical,
                                     argsToString("\"Position\"-element at ", clusterElementChild->startOffset(), " points to ", pos,
                                         " which is not the offset of the containing \"Cluster\"-element."),
@@ -285,7 +286,6 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                 default:;
                 }
             }
-            currentOffset += segmentElement->totalSize();
         }
     }
     // add a warning when no index could be found
@@ -411,7 +411,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     m_tagsElements.clear();
     m_seekInfos.clear();
     m_segmentCount = 0;
-    std::uint64_t currentOffset = 0;
     vector<MatroskaSeekInfo>::difference_type seekInfosIndex = 0;
 
     // loop through all top level elements
@@ -506,7 +505,7 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                             // -> take elements from seek tables within this segment into account
                             for (auto i = m_seekInfos.cbegin() + seekInfosIndex, end = m_seekInfos.cend(); i != end; ++i, ++seekInfosIndex) {
                                 for (const auto &infoPair : (*i)->info()) {
-                                    std::uint64_t offset = currentOffset + topLevelElement->dataOffset() + infoPair.second;
+                                    std::uint64_t offset = topLevelElement->dataOffset() + infoPair.second;
                                     if (offset >= fileInfo().size()) {
                                         diag.emplace_back(DiagLevel::Critical,
                                             argsToString("Offset (", offset, ") denoted by \"SeekHead\" element is invalid."), context);
@@ -573,7 +572,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                         break;
                     }
                 }
-                currentOffset += topLevelElement->totalSize();
                 break;
             default:;
             }
@@ -916,8 +914,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     std::uint64_t offset;
     // current total offset (including EBML header)
     std::uint64_t totalOffset;
-    // current write offset (used to calculate positions)
-    std::uint64_t currentPosition = 0;
     // holds the offsets of all CRC-32 elements and the length of the enclosing block
     std::vector<std::tuple<std::uint64_t, std::uint64_t>> crc32Offsets;
     // size length used to make size denotations
@@ -1061,11 +1057,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
         progress.nextStepOrStop("Calculating offsets of elements before cluster ...");
     calculateSegmentData:
+        // clear seek information as the tags might be written in a different segment than previously assumed
+        for (auto &segment : segmentData) {
+            segment.seekInfo.clear();
+        }
+
         // define variables to store sizes, offsets and other information required to make a header and "Segment"-elements
         // -> current "pretent" write offset
         std::uint64_t currentOffset = ebmlHeaderSize;
-        // -> current read offset (used to calculate positions)
-        std::uint64_t readOffset = 0;
         // -> index of current element during iteration
         unsigned int index;
 
@@ -1081,7 +1080,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         }
 
         // calculate sizes and other information required to make segments
-        for (level0Element = firstElement(), currentPosition = newPadding = segmentIndex = 0; level0Element;
+        for (level0Element = firstElement(), newPadding = segmentIndex = 0; level0Element;
             level0Element = level0Element->nextSibling()) {
             switch (level0Element->id()) {
             case EbmlIds::Header:
@@ -1137,7 +1136,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::SegmentInfo, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::SegmentInfo, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "SegmentInfo"-element
@@ -1173,7 +1172,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Tracks"-element
                 if (trackHeaderSize) {
                     // update offsets in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Tracks"-element
@@ -1185,7 +1184,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::Chapters, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::Chapters, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of element
@@ -1201,7 +1200,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Tags"-element
                     if (tagsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Tags"-element
@@ -1211,7 +1210,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Attachments"-element
                     if (attachmentsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Attachments"-element
@@ -1225,7 +1224,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Cues"-element
                 if (newCuesPos == ElementPosition::BeforeData && segment.cuesElement) {
                     // update offset of "Cues"-element in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Cues"-element
@@ -1263,17 +1262,17 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
                             // -> update offset in "SeakHead"-element
                             if (segment.seekInfo.push(
-                                    0, MatroskaIds::Cluster, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)) {
+                                    0, MatroskaIds::Cluster, level1Element->startOffset() - 4 - segment.sizeDenotationLength - currentOffset)) {
                                 goto calculateSegmentSize;
                             }
                             // -> update offset of "Cluster"-element in "Cues"-element and get end offset of last "Cluster"-element
                             bool cuesInvalidated = false;
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
-                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
+                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
                                 segment.clusterEndOffset = level1Element->endOffset();
                                 if (segment.cuesElement
                                     && segment.cuesUpdater.updateOffsets(
-                                        clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)
+                                        clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - currentOffset)
                                     && newCuesPos == ElementPosition::BeforeData) {
                                     cuesInvalidated = true;
                                 }
@@ -1294,7 +1293,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             progress.updateStep("Calculating offsets of elements after cluster ...");
                             if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                                 // update offset of "Cues"-element in "SeekHead"-element
-                                if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                                if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                                     goto calculateSegmentSize;
                                 } else {
                                     // add size of "Cues"-element
@@ -1306,7 +1305,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Tags"-element
                                 if (tagsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Tags"-element
@@ -1316,7 +1315,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Attachments"-element
                                 if (attachmentsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Attachments"-element
@@ -1377,8 +1376,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 } else {
                     // if rewrite is required, pretend writing the remaining elements to compute total segment size and cluster sizes
 
-                    // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
-                    if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
+                    // pretend writing "Void"-element (only in the first segment and if there is at least one "Cluster"-element in the segment)
+                    segment.newPadding = 0;
+                    if ((level1Element = level0Element->childById(MatroskaIds::Cluster, diag)) && !segmentIndex) {
                         // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
                         newPadding = fileInfo().preferredPadding() == 1 ? 2 : fileInfo().preferredPadding();
                         segment.totalDataSize += (segment.newPadding = newPadding);
@@ -1389,12 +1389,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     bool cuesInvalidated = false;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
-                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
-                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, currentPosition + segment.totalDataSize)
+                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
+                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, segment.totalDataSize)
                             && newCuesPos == ElementPosition::BeforeData) {
                             cuesInvalidated = true;
                         } else {
-                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, currentPosition + segment.totalDataSize)) {
+                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Cluster"-element
@@ -1411,7 +1411,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case EbmlIds::Crc32:
                                         break;
                                     case MatroskaIds::Position:
-                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.totalDataSize);
                                         break;
                                     case MatroskaIds::PrevSize:
                                         clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.previousClusterSize(index));
@@ -1444,7 +1444,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     progress.updateStep("Calculating offsets of elements after cluster ...");
                     if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                         // update offset of "Cues"-element in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Cues"-element
@@ -1459,7 +1459,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Tags"-element
                         if (tagsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Tags"-element
@@ -1469,7 +1469,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Attachments"-element
                         if (attachmentsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Attachments"-element
@@ -1484,12 +1484,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                 // increase write offsets by the size of the segment which size has just been computed
                 segment.totalSize = 4 + EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) + segment.totalDataSize;
-                currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
-                // increase the read offset by the size of the segment read from the original file
-                readOffset += level0Element->totalSize();
-
                 break;
             }
             default:
@@ -1498,7 +1494,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     "The top-level element \"" % level0Element->idToString() + "\" of the original file is unknown and will just be copied.",
                     context);
                 currentOffset += level0Element->totalSize();
-                readOffset += level0Element->totalSize();
             }
         }
 
@@ -1597,7 +1592,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         EbmlElement::makeSimpleElement(outputStream, EbmlIds::DocTypeReadVersion, m_doctypeReadVersion);
 
         // iterates through all level 0 elements of the original file
-        for (level0Element = firstElement(), segmentIndex = 0, currentPosition = 0; level0Element; level0Element = level0Element->nextSibling()) {
+        for (level0Element = firstElement(), segmentIndex = 0; level0Element; level0Element = level0Element->nextSibling()) {
 
             // write all level 0 elements of the original file
             switch (level0Element->id()) {
@@ -1739,7 +1734,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     unsigned int index = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
-                        clusterSize = currentPosition + (static_cast<std::uint64_t>(outputStream.tellp()) - offset);
+                        clusterSize = static_cast<std::uint64_t>(outputStream.tellp()) - offset;
                         // write header; checking whether clusterSizesIterator is valid shouldn't be necessary
                         outputWriter.writeUInt32BE(MatroskaIds::Cluster);
                         sizeLength = EbmlElement::makeSizeDenotation(*clusterSizesIterator, buff);
@@ -1847,15 +1842,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // increase the current segment index
                 ++segmentIndex;
 
-                // increase write offsets by the size of the segment which has just been written
-                currentPosition += segment.totalSize;
-
                 break;
             }
             default:
                 // just copy any unknown top-level elements
                 level0Element->copyEntirely(outputStream, diag, nullptr);
-                currentPosition += level0Element->totalSize();
             }
         }
 
-- 
2.43.0


From fac458330c4b74722d3eb940df7ef638a13c4bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:50 +0000
Subject: [PATCH 065/156] fix: follow references to further "SeekHead"-elements
 of Matroska files correctly

---
 matroska/matroskaseekinfo.cpp | 25 +++++++++++++++++++++++--
 matroska/matroskaseekinfo.h   |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskaseekinfo.cpp b/matroska/matroskaseekinfo.cpp
index 5d45573..80829ae 100644
--- a/matroska/matroskaseekinfo.cpp
+++ b/matroska/matroskaseekinfo.cpp
@@ -53,6 +53,9 @@ void MatroskaSeekInfo::parse(EbmlElement *seekHeadElement, Diagnostics &diag, si
     static const string context("parsing \"SeekHead\"-element");
 
     m_seekHeadElements.emplace_back(seekHeadElement);
+    if (seekHeadElement->parent()) {
+        m_segmentDataOffset = seekHeadElement->parent()->dataOffset();
+    }
 
     for (EbmlElement *seekElement = seekHeadElement->firstChild(), *seekIdElement, *seekPositionElement; seekElement;
         seekElement = seekElement->nextSibling()) {
@@ -97,7 +100,7 @@ void MatroskaSeekInfo::parse(EbmlElement *seekHeadElement, Diagnostics &diag, si
 
             // follow possibly referenced seek head element
             if (m_info.back().first == MatroskaIds::SeekHead) {
-                const auto startOffset = m_info.back().second;
+                const auto startOffset = m_segmentDataOffset + m_info.back().second;
                 if (!maxIndirection) {
                     diag.emplace_back(DiagLevel::Warning,
                         argsToString("Not following reference by \"Seek\"-element at ", seekElement->startOffset(),
@@ -120,7 +123,24 @@ void MatroskaSeekInfo::parse(EbmlElement *seekHeadElement, Diagnostics &diag, si
                 if (visited) {
                     break;
                 }
-                m_additionalSeekHeadElements.emplace_back(make_unique<EbmlElement>(seekHeadElement->container(), startOffset));
+                auto additionalSeekHeadElement = make_unique<EbmlElement>(seekHeadElement->container(), startOffset);
+                try {
+                    additionalSeekHeadElement->parse(diag);
+                } catch (const Failure &) {
+                    diag.emplace_back(DiagLevel::Warning,
+                        argsToString("Unable to parse the element at ", startOffset, " the \"Seek\"-element at ", seekElement->startOffset(),
+                            " is pointing to."),
+                        context);
+                    break;
+                }
+                if (additionalSeekHeadElement->id() != MatroskaIds::SeekHead) {
+                    diag.emplace_back(DiagLevel::Warning,
+                        argsToString("The \"Seek\"-element at ", seekElement->startOffset(), " is supposed to point to another \"SeekHead\"-element but points to \"",
+                            additionalSeekHeadElement->idToString(), "\" at ", startOffset, '.'),
+                        context);
+                    break;
+                }
+                m_additionalSeekHeadElements.emplace_back(std::move(additionalSeekHeadElement));
                 parse(m_additionalSeekHeadElements.back().get(), diag, maxIndirection - 1);
             }
 
@@ -253,6 +273,7 @@ void MatroskaSeekInfo::clear()
     m_seekHeadElements.clear();
     m_additionalSeekHeadElements.clear();
     m_info.clear();
+    m_segmentDataOffset = 0;
 }
 
 } // namespace TagParser
diff --git a/matroska/matroskaseekinfo.h b/matroska/matroskaseekinfo.h
index d94c474..2b6cefa 100644
--- a/matroska/matroskaseekinfo.h
+++ b/matroska/matroskaseekinfo.h
@@ -29,6 +29,7 @@ private:
     std::vector<EbmlElement *> m_seekHeadElements;
     std::vector<std::unique_ptr<EbmlElement>> m_additionalSeekHeadElements;
     std::vector<std::pair<EbmlElement::IdentifierType, std::uint64_t>> m_info;
+    std::uint64_t m_segmentDataOffset = 0;
 };
 
 /*!
-- 
2.43.0


From 25fa7eddf5443921f4fd810d63c79c2318257412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:07 +0000
Subject: [PATCH 066/156] fix: avoid endless loops when computing the size of
 Matroska segments which are updated in-place

---
 matroska/matroskacontainer.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 465b041..02c9cb3 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -822,6 +822,7 @@ struct SegmentData {
         , totalSize(0)
         , newDataOffset(0)
         , sizeDenotationLength(0)
+        , sizeDenotationLengthAdjusted(false)
     {
     }
     SegmentData(SegmentData &&) = default;
@@ -860,8 +861,10 @@ struct SegmentData {
     std::uint64_t totalSize;
     /// \brief data offset of the segment in the new file
     std::uint64_t newDataOffset;
-    /// \brief header size (in the new file)
+    /// \brief length of the size denotation (in the new file); zero if the minimal length is supposed to be used
     std::uint8_t sizeDenotationLength;
+    /// \brief whether sizeDenotationLength has been adjusted (because the length from the original file was not suitable)
+    bool sizeDenotationLengthAdjusted;
 };
 
 void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
@@ -1060,6 +1063,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // clear seek information as the tags might be written in a different segment than previously assumed
         for (auto &segment : segmentData) {
             segment.seekInfo.clear();
+            segment.sizeDenotationLength = 0;
+            segment.sizeDenotationLengthAdjusted = false;
         }
 
         // define variables to store sizes, offsets and other information required to make a header and "Segment"-elements
@@ -1256,7 +1261,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 diag.emplace_back(DiagLevel::Critical, "Header size of \"Segment\"-element from original file is invalid.", context);
                                 throw InvalidDataException();
                             }
-                            segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            if (!segment.sizeDenotationLength) {
+                                segment.sizeDenotationLength = static_cast<std::uint8_t>(level0Element->headerSize() - 4u);
+                            }
 
                         nonRewriteCalculations:
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
@@ -1326,14 +1333,18 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                             // calculate total offset again (taking everything into account)
                             // -> check whether assumed size denotation was correct
-                            if (segment.sizeDenotationLength != (sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))) {
+                            // -> avoid decreasing the length again because that might lead to a bigger size which in turn required a bigger length
+                            sizeLength = EbmlElement::calculateSizeDenotationLength(segment.totalDataSize);
+                            if (segment.sizeDenotationLength < sizeLength
+                                || (segment.sizeDenotationLength > sizeLength && !segment.sizeDenotationLengthAdjusted)) {
                                 // assumption was wrong -> recalculate with new length
                                 segment.sizeDenotationLength = sizeLength;
+                                segment.sizeDenotationLengthAdjusted = true;
                                 level1Element = segment.firstClusterElement;
                                 goto nonRewriteCalculations;
                             }
 
-                            totalOffset = currentOffset + 4 + sizeLength + offset;
+                            totalOffset = currentOffset + 4 + segment.sizeDenotationLength + offset;
                             // offset does not include size of "Cues"-element
                             if (newCuesPos == ElementPosition::BeforeData) {
                                 totalOffset += segment.cuesUpdater.totalSize();
@@ -1483,7 +1494,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 ++segmentIndex;
 
                 // increase write offsets by the size of the segment which size has just been computed
-                segment.totalSize = 4 + EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) + segment.totalDataSize;
+                segment.totalSize = 4 + max(segment.sizeDenotationLength, EbmlElement::calculateSizeDenotationLength(segment.totalDataSize))
+                    + segment.totalDataSize;
                 currentOffset += segment.totalSize;
 
                 break;
@@ -1612,7 +1624,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // write "Segment"-element actually
                 progress.updateStep("Writing segment header ...");
                 outputWriter.writeUInt32BE(MatroskaIds::Segment);
-                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff);
+                sizeLength = EbmlElement::makeSizeDenotation(segment.totalDataSize, buff, segment.sizeDenotationLength);
                 outputStream.write(buff, sizeLength);
                 segment.newDataOffset = offset = static_cast<std::uint64_t>(outputStream.tellp()); // store segment data offset here
 
-- 
2.43.0


From cbfe7e0252474cd4bc3726d03edc077be7aeae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:07 +0000
Subject: [PATCH 067/156] fix: write CRC-32 checksum of Matroska segments to
 the right position

---
 matroska/matroskacontainer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 02c9cb3..e1768fc 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1915,8 +1915,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             progress.updateStep("Updating CRC-32 checksums ...");
             for (const auto &crc32Offset : crc32Offsets) {
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
-                outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2));
-                writer().writeUInt32LE(reader().readCrc32(get<1>(crc32Offset) - 6));
+                const auto crc32 = reader().readCrc32(get<1>(crc32Offset) - 6);
+                outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2)); // reading might move the put position as well
+                writer().writeUInt32LE(crc32);
             }
         }
 
-- 
2.43.0


From 44bc81d82d362bf937e0fa3b18c21ed128bf7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:31 +0000
Subject: [PATCH 068/156] fix: avoid endless loop when computing offsets of
 Matroska clusters after the size of the index has changed

---
 matroska/matroskacontainer.cpp | 56 +++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index e1768fc..a6717ce 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1404,37 +1404,37 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, segment.totalDataSize)
                             && newCuesPos == ElementPosition::BeforeData) {
                             cuesInvalidated = true;
+                        }
+                        // compute size even if the "Cues"-element has been invalidated as offsets of subsequent clusters depend on it
+                        if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, segment.totalDataSize)) {
+                            goto calculateSegmentSize;
                         } else {
-                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, segment.totalDataSize)) {
-                                goto calculateSegmentSize;
-                            } else {
-                                // add size of "Cluster"-element
-                                clusterSize = clusterReadSize = 0;
-                                for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
-                                    level2Element->parse(diag);
-                                    if (segment.cuesElement
-                                        && segment.cuesUpdater.updateRelativeOffsets(clusterReadOffset, clusterReadSize, clusterSize)
-                                        && newCuesPos == ElementPosition::BeforeData) {
-                                        cuesInvalidated = true;
-                                    }
-                                    switch (level2Element->id()) {
-                                    case EbmlIds::Void:
-                                    case EbmlIds::Crc32:
-                                        break;
-                                    case MatroskaIds::Position:
-                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.totalDataSize);
-                                        break;
-                                    case MatroskaIds::PrevSize:
-                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.previousClusterSize(index));
-                                        break;
-                                    default:
-                                        clusterSize += level2Element->totalSize();
-                                    }
-                                    clusterReadSize += level2Element->totalSize();
+                            // add size of "Cluster"-element
+                            clusterSize = clusterReadSize = 0;
+                            for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                                level2Element->parse(diag);
+                                if (segment.cuesElement
+                                    && segment.cuesUpdater.updateRelativeOffsets(clusterReadOffset, clusterReadSize, clusterSize)
+                                    && newCuesPos == ElementPosition::BeforeData) {
+                                    cuesInvalidated = true;
+                                }
+                                switch (level2Element->id()) {
+                                case EbmlIds::Void:
+                                case EbmlIds::Crc32:
+                                    break;
+                                case MatroskaIds::Position:
+                                    clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.totalDataSize);
+                                    break;
+                                case MatroskaIds::PrevSize:
+                                    clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.previousClusterSize(index));
+                                    break;
+                                default:
+                                    clusterSize += level2Element->totalSize();
                                 }
-                                segment.clusterSizes.push_back(clusterSize);
-                                segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                clusterReadSize += level2Element->totalSize();
                             }
+                            segment.clusterSizes.push_back(clusterSize);
+                            segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
                         }
                         // check whether aborted (because this loop might take some seconds to process)
                         progress.stopIfAborted();
-- 
2.43.0


From c8e14a02753129fd80ce1467ed558b91f13052e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:58 +0000
Subject: [PATCH 069/156] fix: compute CRC-32 checksum of Matroska segments
 using the algorithm required by EBML

---
 matroska/matroskacontainer.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index a6717ce..04e476b 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -15,6 +15,8 @@
 #include <c++utilities/conversion/stringconversion.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
+#include <array>
 #include <chrono>
 #include <filesystem>
 #include <functional>
@@ -867,6 +869,36 @@ struct SegmentData {
     bool sizeDenotationLengthAdjusted;
 };
 
+/*!
+ * \brief Reads \a length bytes from \a stream and computes the checksum as required by the "CRC-32"-element.
+ * \remarks EBML uses the CRC-32 algorithm as defined by IEEE (in contrast to Ogg, hence BinaryReader::readCrc32() can not be used here).
+ */
+static std::uint32_t readEbmlCrc32(std::istream &stream, std::uint64_t length)
+{
+    static const auto table = [] {
+        auto res = std::array<std::uint32_t, 256>();
+        for (std::uint32_t i = 0; i != 256; ++i) {
+            auto value = i;
+            for (auto bit = 0; bit != 8; ++bit) {
+                value = (value & 1) ? ((value >> 1) ^ 0xEDB88320u) : (value >> 1);
+            }
+            res[i] = value;
+        }
+        return res;
+    }();
+    auto crc = std::uint32_t(0xFFFFFFFFu);
+    char buffer[0x2000];
+    while (length) {
+        const auto bytesToRead = min<std::uint64_t>(length, sizeof(buffer));
+        stream.read(buffer, static_cast<std::streamsize>(bytesToRead));
+        for (auto i = std::uint64_t(); i != bytesToRead; ++i) {
+            crc = table[(crc ^ static_cast<unsigned char>(buffer[i])) & 0xFFu] ^ (crc >> 8);
+        }
+        length -= bytesToRead;
+    }
+    return ~crc;
+}
+
 void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("making Matroska container");
@@ -1915,7 +1947,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             progress.updateStep("Updating CRC-32 checksums ...");
             for (const auto &crc32Offset : crc32Offsets) {
                 outputStream.seekg(static_cast<streamoff>(get<0>(crc32Offset) + 6));
-                const auto crc32 = reader().readCrc32(get<1>(crc32Offset) - 6);
+                const auto crc32 = readEbmlCrc32(outputStream, get<1>(crc32Offset) - 6);
                 outputStream.seekp(static_cast<streamoff>(get<0>(crc32Offset) + 2)); // reading might move the put position as well
                 writer().writeUInt32LE(crc32);
             }
-- 
2.43.0


From 612ba56faa15ad7254af5d27a177b28ef1ef35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 070/156] fix: write UTF-16 text in MP4 tags using the byte
 order it is read with

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index bffd89b..2f44f8a 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -628,8 +628,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 }
                 break;
             case RawDataType::Utf16:
-                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16LittleEndian) {
-                    m_writer.writeString(value.toString(TagTextEncoding::Utf16LittleEndian));
+                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16BigEndian) {
+                    m_writer.writeString(value.toString(TagTextEncoding::Utf16BigEndian));
                 }
                 break;
             case RawDataType::BeSignedInt: {
-- 
2.43.0


From 52886dca1684e03fe7a7553cb4204e67ae499bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 071/156] fix: read big unsigned integers in MP4 tags

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 2f44f8a..3471eda 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -218,8 +218,8 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     } else if (dataAtom->dataSize() == (8 + 1)) {
                         number = reader.readByte();
                     }
-                    if (number <= static_cast<std::uint64_t>(std::numeric_limits<int>::max())
-                        && !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
+                    if (number > static_cast<std::uint64_t>(std::numeric_limits<int>::max())
+                        || !assignSpecialInteger(ilstChild, static_cast<int>(number), *val)) {
                         val->assignUnsignedInteger(number);
                     }
                     break;
-- 
2.43.0


From 6c15acc89039eafdf34fa84da620bd42bc555684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 072/156] fix: read 24-bit integers in MP4 tags

---
 mp4/mp4tagfield.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 3471eda..0a088b5 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -194,6 +194,8 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     }
                     if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = reader.readInt24BE();
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
@@ -213,6 +215,8 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                         number = reader.readUInt64BE();
                     } else if (dataAtom->dataSize() >= (8 + 4)) {
                         number = reader.readUInt32BE();
+                    } else if (dataAtom->dataSize() == (8 + 3)) {
+                        number = reader.readUInt24BE();
                     } else if (dataAtom->dataSize() == (8 + 2)) {
                         number = reader.readUInt16BE();
                     } else if (dataAtom->dataSize() == (8 + 1)) {
-- 
2.43.0


From 5a5b9b088c3bd343808da54a6c0773af169895dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 073/156] fix: write standard genre index of MP4 tags as it is
 read

---
 mp4/mp4tagfield.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 0a088b5..f55804c 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -568,6 +568,9 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
 static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue> fieldId, const TagValue &value, CppUtilities::BinaryWriter &writer)
 {
     switch (fieldId) {
+    case Mp4TagAtomIds::PreDefinedGenre: // stored index is counted from one
+        writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1));
+        return true;
     case Mp4TagAtomIds::MediaType:
         if (value.type() == TagDataType::Text) {
             if (const auto id = mp4TagMediaTypeId(value.toString(TagTextEncoding::Utf8)); id.has_value()) {
@@ -685,7 +688,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                     break;
                 }
                 case Mp4TagAtomIds::PreDefinedGenre:
-                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex()));
+                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1)); // stored index is counted from one
                     break;
                 default:
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
-- 
2.43.0


From 68a515cfbd395cfe5b5d5760bc81f9435258d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 074/156] fix: check range of track/disk position when making
 MP4 tags

---
 mp4/mp4tagfield.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index f55804c..50d5d82 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -676,13 +676,15 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
                 case Mp4TagAtomIds::TrackPosition:
                 case Mp4TagAtomIds::DiskPosition: {
                     PositionInSet pos = value.toPositionInSet();
-                    m_writer.writeInt32BE(pos.position());
-                    if (pos.total() <= numeric_limits<std::int16_t>::max()) {
-                        m_writer.writeInt16BE(static_cast<std::int16_t>(pos.total()));
+                    constexpr auto max = static_cast<std::int32_t>(numeric_limits<std::uint16_t>::max());
+                    if (pos.position() >= 0 && pos.position() <= max && pos.total() >= 0 && pos.total() <= max) {
+                        m_writer.writeUInt16BE(0);
+                        m_writer.writeUInt16BE(static_cast<std::uint16_t>(pos.position()));
+                        m_writer.writeUInt16BE(static_cast<std::uint16_t>(pos.total()));
                     } else {
                         throw ConversionException(
                             "Integer can not be assigned to the field with the id \"" % interpretIntegerAsString<std::uint32_t>(m_field.id())
-                            + "\" because it is to big.");
+                            + "\" because it is out of range.");
                     }
                     m_writer.writeUInt16BE(0);
                     break;
-- 
2.43.0


From 8356d5620c0e3fbfb3489af84cf7ef71ba7b3263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:10 +0000
Subject: [PATCH 075/156] fix: read short "mean" atoms in MP4 tags

---
 mp4/mp4tagfield.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 50d5d82..b592c0c 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -266,7 +266,7 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     }
                 }
             } else if (dataAtom->id() == Mp4AtomIds::Mean) {
-                if (dataAtom->dataSize() < 8) {
+                if (dataAtom->dataSize() < 4) {
                     diag.emplace_back(DiagLevel::Warning,
                         "Truncated child atom \"mean\" in tag atom (ilst child) found. It will be ignored and discarded when applying changes.",
                         context);
-- 
2.43.0


From 096e4f700ad28f8805cd08191922129831146aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:55 +0000
Subject: [PATCH 076/156] fix: read and write each data atom of an MP4 tag
 field according to its own type

---
 mp4/mp4tagfield.cpp | 25 ++++++++++++++++---------
 mp4/mp4tagfield.h   |  5 +++--
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index b592c0c..b1d9cb0 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -144,10 +144,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     diag.emplace_back(DiagLevel::Warning,
                         "The version indicator byte is not zero, the tag atom might be unsupported and hence not be parsed correctly.", context);
                 }
-                setTypeInfo(*rawDataType = reader.readUInt24BE());
+                *rawDataType = reader.readUInt24BE();
+                if (dataAtomFound == 1) {
+                    setTypeInfo(*rawDataType);
+                }
                 try { // try to show warning if parsed raw data type differs from expected raw data type for this atom id
                     const vector<std::uint32_t> expectedRawDataTypes = this->expectedRawDataTypes();
-                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), m_parsedRawDataType) == expectedRawDataTypes.cend()) {
+                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), *rawDataType) == expectedRawDataTypes.cend()) {
                         diag.emplace_back(DiagLevel::Warning, "Unexpected data type indicator found.", context);
                     }
                 } catch (const Failure &) {
@@ -160,13 +163,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 case RawDataType::Utf16:
                     stream.seekg(static_cast<streamoff>(dataAtom->dataOffset() + 8));
                     val->assignText(reader.readString(dataAtom->dataSize() - 8),
-                        (m_parsedRawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
+                        (*rawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
                     break;
                 case RawDataType::Gif:
                 case RawDataType::Jpeg:
                 case RawDataType::Png:
                 case RawDataType::Bmp: {
-                    switch (m_parsedRawDataType) {
+                    switch (*rawDataType) {
                     case RawDataType::Gif:
                         val->setMimeType("image/gif");
                         break;
@@ -553,9 +556,12 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
     m_totalSize = 8 + (m_field.name().empty() ? 0 : (12 + m_field.name().size())) + (m_field.mean().empty() ? 0 : (12 + m_field.mean().size()));
 
     // prepare making data atom and calculate the expected size
-    m_totalSize += prepareDataAtom(field.value(), field.countryIndicator(), field.languageIndicator(), context, diag);
+    const auto fieldRawType = field.isTypeInfoAssigned() ? std::make_optional(field.typeInfo()) : std::nullopt;
+    m_totalSize += prepareDataAtom(field.value(), fieldRawType, field.countryIndicator(), field.languageIndicator(), context, diag);
     for (const auto &additionalData : m_field.additionalData()) {
-        m_totalSize += prepareDataAtom(additionalData.value, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
+        const auto rawType = additionalData.rawDataType ? std::make_optional(additionalData.rawDataType) : fieldRawType;
+        m_totalSize += prepareDataAtom(
+            additionalData.value, rawType, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
     }
 
     if (m_totalSize > numeric_limits<std::uint32_t>::max()) {
@@ -595,9 +601,10 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
 
 /*!
  * \brief Prepares making a data atom for the specified \a value.
+ * \remarks If present, \a rawType is used instead of the raw data type considered appropriate for \a value.
  */
-std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
-    const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
+std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::optional<std::uint32_t> rawType, std::uint16_t countryIndicator,
+    std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
 {
     // add new data entry
     auto &data = m_data.emplace_back();
@@ -610,7 +617,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
 
     try {
         // try to use appropriate raw data type
-        data.rawType = m_field.isTypeInfoAssigned() ? m_field.typeInfo() : m_field.appropriateRawDataTypeForValue(value);
+        data.rawType = rawType ? *rawType : m_field.appropriateRawDataTypeForValue(value);
     } catch (const Failure &) {
         // unable to obtain appropriate raw data type
         if (m_field.id() == Mp4TagAtomIds::Cover) {
diff --git a/mp4/mp4tagfield.h b/mp4/mp4tagfield.h
index a491763..db5fae1 100644
--- a/mp4/mp4tagfield.h
+++ b/mp4/mp4tagfield.h
@@ -7,6 +7,7 @@
 #include <c++utilities/io/binarywriter.h>
 
 #include <cstdint>
+#include <optional>
 #include <sstream>
 #include <vector>
 
@@ -84,8 +85,8 @@ private:
     /// \endcond
 
     Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag);
-    std::uint64_t prepareDataAtom(
-        const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
+    std::uint64_t prepareDataAtom(const TagValue &value, std::optional<std::uint32_t> rawType, std::uint16_t countryIndicator,
+        std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
 
     Mp4TagField &m_field;
     CppUtilities::BinaryWriter m_writer;
-- 
2.43.0


From b80878469b222c6177ae485f369a47bd81f66727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:55 +0000
Subject: [PATCH 077/156] fix: write type of cover in MP4 tags according to its
 MIME-type

---
 mp4/mp4tagfield.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index b1d9cb0..41890e9 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -476,6 +476,8 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
             return RawDataType::Png;
         } else if (mimeType == "image/bmp") {
             return RawDataType::Bmp;
+        } else if (mimeType == "image/gif") {
+            return RawDataType::Gif;
         }
     } break;
     case Extended:
@@ -615,6 +617,15 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::opti
     data.countryIndicator = countryIndicator;
     data.languageIndicator = languageIndicator;
 
+    // prefer the type of an assigned cover over the type of the cover it replaces
+    if (m_field.id() == Mp4TagAtomIds::Cover && !value.mimeType().empty()) {
+        try {
+            rawType = m_field.appropriateRawDataTypeForValue(value);
+        } catch (const Failure &) {
+            // preserve present raw data type if there is no appropriate type for the MIME-type
+        }
+    }
+
     try {
         // try to use appropriate raw data type
         data.rawType = rawType ? *rawType : m_field.appropriateRawDataTypeForValue(value);
@@ -673,6 +684,7 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::opti
                 break;
             }
             case RawDataType::Bmp:
+            case RawDataType::Gif:
             case RawDataType::Jpeg:
             case RawDataType::Png:
                 break; // leave converted data empty to write original data later
-- 
2.43.0


From 09e678386bc610970820e3d23f1a46957bfe9613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:55 +0000
Subject: [PATCH 078/156] fix: write only one genre in MP4 tags

---
 mp4/mp4tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index eb230b6..ad62f69 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -482,7 +482,7 @@ Mp4TagMaker::Mp4TagMaker(Mp4Tag &tag, Diagnostics &diag)
     m_ilstSize(8)
     ,
     // ensure there only one genre atom is written (prefer genre as string)
-    m_omitPreDefinedGenre(m_tag.fields().count(m_tag.hasField(Mp4TagAtomIds::Genre)))
+    m_omitPreDefinedGenre(m_tag.FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::Genre))
 {
     m_maker.reserve(m_tag.fields().size());
     for (auto &field : m_tag.fields()) {
-- 
2.43.0


From a798fdb43664fe571982a6600e0a817751598b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:55 +0000
Subject: [PATCH 079/156] fix: assign multiple values to fields of MP4 tags
 stored as extended field

---
 mp4/mp4tag.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index ad62f69..20301a3 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -329,14 +329,19 @@ bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
                 ++valuesIterator;
             }
         }
-        for (; valuesIterator != values.cend(); ++valuesIterator) {
-            if (valuesIterator->isEmpty()) {
+        for (; range.first != range.second; ++range.first) {
+            if (extendedId.matches(range.first->second)) {
+                range.first->second.clearValue();
+            }
+        }
+        for (; valuesIterator != values.cend() && !extendedId.updateOnly; ++valuesIterator) {
+            if (!valuesIterator->isEmpty()) {
                 fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
                     std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
             }
         }
-        for (; range.first != range.second; ++range.first) {
-            range.first->second.clearValue();
+        if (!extendedId.updateOnly) {
+            return true; // field is only stored as extended field
         }
     }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
-- 
2.43.0


From 41d7353634bf4e5f058444343c72da485f2934a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:55 +0000
Subject: [PATCH 080/156] fix: report MP4 atoms denoting a 64-bit size which is
 too small

---
 mp4/mp4atom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 2e99a81..c8ec698 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -86,7 +86,7 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     if (m_dataSize == 1) { // atom denotes 64-bit size
         m_dataSize = reader().readUInt64BE();
         m_sizeLength = 12; // 4 bytes indicate long size denotation + 8 bytes for actual size denotation
-        if (dataSize() < 16 && m_dataSize != 1) {
+        if (m_dataSize < 16) {
             diag.emplace_back(DiagLevel::Critical, "Atom denoting 64-bit size is smaller than 16 byte and hence invalid.", parsingContext());
             throw TruncatedDataException();
         }
-- 
2.43.0


From 1fc44f74d5dcd2059fc1ae0c0d802ce66f56bbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:19 +0000
Subject: [PATCH 081/156] fix: consider predefined genre when reading and
 assigning multiple genres of MP4 tags

---
 mp4/mp4tag.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 20301a3..293d9bf 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -85,6 +85,9 @@ const TagValue &Mp4Tag::value(KnownField field) const
 std::vector<const TagValue *> Mp4Tag::values(KnownField field) const
 {
     auto values = FieldMapBasedTag<Mp4Tag>::values(field);
+    if (field == KnownField::Genre && values.empty()) {
+        return FieldMapBasedTag<Mp4Tag>::values(Mp4TagAtomIds::PreDefinedGenre);
+    }
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
         for (auto i = range.first; i != range.second; ++i) {
@@ -310,6 +313,9 @@ bool Mp4Tag::setValue(KnownField field, const TagValue &value)
 
 bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 {
+    if (field == KnownField::Genre) {
+        fields().erase(Mp4TagAtomIds::PreDefinedGenre);
+    }
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto valuesIterator = values.cbegin();
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
-- 
2.43.0


From 6e50bd00dc129d1b96abf0d6909c25a6bf210637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:12 +0000
Subject: [PATCH 082/156] fix: allow saving MP4 files without media data

---
 mp4/mp4container.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 75b3153..2471bc0 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -334,6 +334,10 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             }
         } else {
             currentTagPos = ElementPosition::Keep;
+            if (newTagPos == ElementPosition::Keep) {
+                newTagPos = ElementPosition::BeforeData;
+            }
+            rewriteRequired = true; // there is no media data which could be left as-is
         }
 
         // ensure index and tags are always placed at the beginning when dealing with DASH files
@@ -910,7 +914,7 @@ calculatePadding:
                         throw Failure();
                     }
                 }
-            } else {
+            } else if (!origMediaDataOffsets.empty()) {
                 progress.updateStep("Updating chunk offset table for each track ...");
                 updateOffsets(origMediaDataOffsets, newMediaDataOffsets, diag, progress);
             }
-- 
2.43.0


From 28f72ddc73457ec9bb8de764857cedc3640e6e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:12 +0000
Subject: [PATCH 083/156] fix: skip MP4 atoms voided between the media data
 completely

---
 mp4/mp4container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 2471bc0..a046a8a 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -829,6 +829,7 @@ calculatePadding:
                             // must void these if they occur "between" the media data
                             outputStream.seekp(4, ios_base::cur);
                             outputWriter.writeUInt32BE(Mp4AtomIds::Free);
+                            outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize() - 8), ios_base::cur);
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
-- 
2.43.0


From 26d9903175f43193f941f8957280e2b36e79840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:12 +0000
Subject: [PATCH 084/156] fix: write tags of MP4 files only once if there are
 surplus meta atoms

---
 mp4/mp4container.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index a046a8a..c001532 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -651,7 +651,10 @@ calculatePadding:
                             for (level2Atom = level1Atom->firstChild(); level2Atom; level2Atom = level2Atom->nextSibling()) {
                                 switch (level2Atom->id()) {
                                 case Mp4AtomIds::Meta:
-                                    // write meta atom
+                                    // write meta atom (only once even if there are surplus meta atoms)
+                                    if (metaAtomWritten) {
+                                        break;
+                                    }
                                     for (auto &maker : tagMaker) {
                                         maker.make(outputStream, diag);
                                     }
-- 
2.43.0


From f6b15786886934fa15e1d29f0ea3559554d18531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:12 +0000
Subject: [PATCH 085/156] fix: ignore invalid children of the user data atom
 when saving MP4 files

---
 mp4/mp4container.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index c001532..b3a178a 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -661,9 +661,11 @@ calculatePadding:
                                     metaAtomWritten = true;
                                     break;
                                 default:
-                                    // write buffered data
-                                    level2Atom->copyBuffer(outputStream);
-                                    level2Atom->discardBuffer();
+                                    // write buffered data (there is none in case of invalid atoms)
+                                    if (level2Atom->buffer()) {
+                                        level2Atom->copyBuffer(outputStream);
+                                        level2Atom->discardBuffer();
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From e3b35dbdd76785ba85df74cf6e40bc7ac1421efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:42 +0000
Subject: [PATCH 086/156] fix: update chunk offsets of MP4 tracks according to
 the atom the chunk is part of

---
 mp4/mp4container.cpp | 23 +++++++----------------
 mp4/mp4track.cpp     | 37 ++++++++++++++++++++-----------------
 mp4/mp4track.h       |  3 +++
 3 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index b3a178a..47e843b 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -739,13 +739,12 @@ calculatePadding:
                             if (writeChunkByChunk) {
                                 // write actual data separately when writing chunk-by-chunk
                                 break;
-                            } else {
-                                // store media data offsets when not writing chunk-by-chunk to be able to update chunk offset table
-                                origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
-                                newMediaDataOffsets.push_back(outputStream.tellp());
                             }
                             [[fallthrough]];
                         default:
+                            // store offsets to be able to update chunk offset table (which might also refer to other atoms than "mdat")
+                            origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
+                            newMediaDataOffsets.push_back(outputStream.tellp());
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
@@ -958,7 +957,7 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
     }
     // update "base-data-offset-present" of "tfhd"-atom (NOT tested properly)
     try {
-        for (Mp4Atom *moofAtom = firstElement()->siblingById(Mp4AtomIds::MovieFragment, diag); moofAtom;
+        for (Mp4Atom *moofAtom = firstElement()->siblingByIdIncludingThis(Mp4AtomIds::MovieFragment, diag); moofAtom;
             moofAtom = moofAtom->siblingById(Mp4AtomIds::MovieFragment, diag)) {
             moofAtom->parse(diag);
             try {
@@ -984,17 +983,9 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
                             continue;
                         }
                         stream().seekg(4, ios_base::cur); // skip track ID
-                        std::uint64_t off = reader().readUInt64BE();
-                        for (auto iOld = oldMdatOffsets.cbegin(), iNew = newMdatOffsets.cbegin(), end = oldMdatOffsets.cend(); iOld != end;
-                            ++iOld, ++iNew) {
-                            if (off < static_cast<std::uint64_t>(*iOld)) {
-                                continue;
-                            }
-                            off += static_cast<std::uint64_t>(*iNew - *iOld);
-                            stream().seekp(static_cast<iostream::off_type>(tfhdAtom->dataOffset()) + 8);
-                            writer().writeUInt64BE(off);
-                            break;
-                        }
+                        const auto off = Mp4Track::translateOffset(reader().readUInt64BE(), oldMdatOffsets, newMdatOffsets);
+                        stream().seekp(static_cast<iostream::off_type>(tfhdAtom->dataOffset()) + 8);
+                        writer().writeUInt64BE(off);
                     }
                     switch (tfhdAtomCount) {
                     case 0:
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..798ccbf 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -927,6 +927,24 @@ std::unique_ptr<Mpeg4VideoSpecificConfig> Mp4Track::parseVideoSpecificConfig(
     return videoCfg;
 }
 
+/*!
+ * \brief Returns the new offset of the data which has been at the specified \a offset before media data has been moved.
+ * \param offset Specifies the offset within the original file.
+ * \param oldOffsets Specifies the original offsets of the atoms which have been moved (in ascending order).
+ * \param newOffsets Specifies the new offsets of these atoms.
+ */
+std::uint64_t Mp4Track::translateOffset(
+    std::uint64_t offset, const std::vector<std::int64_t> &oldOffsets, const std::vector<std::int64_t> &newOffsets)
+{
+    // find the last atom starting before the offset; that is the one the offset points into
+    for (auto i = oldOffsets.size(); i > 0; --i) {
+        if (offset >= static_cast<std::uint64_t>(oldOffsets[i - 1])) {
+            return offset + static_cast<std::uint64_t>(newOffsets[i - 1] - oldOffsets[i - 1]);
+        }
+    }
+    return offset;
+}
+
 /*!
  * \brief Updates the chunk offsets of the track. This is necessary when the "mdat"-atom
  *        (which contains the actual chunk data) is moved.
@@ -942,7 +960,6 @@ std::unique_ptr<Mpeg4VideoSpecificConfig> Mp4Track::parseVideoSpecificConfig(
  *
  * \throws Throws std::ios_base::failure when an IO error occurs.
  *
- * \remarks This method needs to be fixed.
  */
 void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, const vector<std::int64_t> &newMdatOffsets)
 {
@@ -957,20 +974,12 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     std::uint64_t endPos = startPos + m_stcoAtom->dataSize() - stcoDataBegin;
     m_istream->seekg(static_cast<streamoff>(startPos));
     m_ostream->seekp(static_cast<streamoff>(startPos));
-    vector<std::int64_t>::size_type i;
-    vector<std::int64_t>::size_type size;
     auto currentPos = static_cast<std::uint64_t>(m_istream->tellg());
     switch (m_stcoAtom->id()) {
     case Mp4AtomIds::ChunkOffset: {
         std::uint32_t off;
         while ((currentPos + 4) <= endPos) {
-            off = m_reader.readUInt32BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint32_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
-                    break;
-                }
-            }
+            off = static_cast<std::uint32_t>(translateOffset(m_reader.readUInt32BE(), oldMdatOffsets, newMdatOffsets));
             m_ostream->seekp(static_cast<streamoff>(currentPos));
             m_writer.writeUInt32BE(off);
             currentPos += static_cast<std::uint64_t>(m_istream->gcount());
@@ -980,13 +989,7 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     case Mp4AtomIds::ChunkOffset64: {
         std::uint64_t off;
         while ((currentPos + 8) <= endPos) {
-            off = m_reader.readUInt64BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint64_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
-                    break;
-                }
-            }
+            off = translateOffset(m_reader.readUInt64BE(), oldMdatOffsets, newMdatOffsets);
             m_ostream->seekp(static_cast<streamoff>(currentPos));
             m_writer.writeUInt64BE(off);
             currentPos += static_cast<std::uint64_t>(m_istream->gcount());
diff --git a/mp4/mp4track.h b/mp4/mp4track.h
index ce51800..dfba8f3 100644
--- a/mp4/mp4track.h
+++ b/mp4/mp4track.h
@@ -162,6 +162,9 @@ public:
     void updateChunkOffsets(const std::vector<std::uint64_t> &chunkOffsets);
     void updateChunkOffset(std::uint32_t chunkIndex, std::uint64_t offset);
 
+    static std::uint64_t translateOffset(
+        std::uint64_t offset, const std::vector<std::int64_t> &oldOffsets, const std::vector<std::int64_t> &newOffsets);
+
     static void addInfo(const AvcConfiguration &avcConfig, AbstractTrack &track);
     static void addInfo(const Av1Configuration &av1Config, AbstractTrack &track);
 
-- 
2.43.0


From 81aecdbff3f46c2edb861d46c87abd3073ee60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 087/156] fix: compute size of MP4 track header as it is
 written

---
 mp4/mp4track.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 798ccbf..82a63c8 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -50,7 +50,7 @@ struct TrackHeaderInfo {
 
 private:
     /// \brief Specifies the size which is required for <i>making a new</i> track header based one the existing one.
-    std::uint64_t requiredSize = 100;
+    std::uint64_t requiredSize = 92;
     /// \brief Specifies whether there actually a track header exists and whether it can be used as basis for a new one.
     bool canUseExisting = false;
     /// \brief Specifies whether the existing track header is truncated.
@@ -440,7 +440,7 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     }
 
     // check the version of the existing tkhd atom to determine where additional data starts
-    switch (info.version = static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()])) {
+    switch (info.version = m_tkhdAtom->dataSize() ? static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()]) : 0u) {
     case 0:
         info.additionalDataOffset = 32;
         break;
@@ -464,7 +464,7 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     }
 
     // determine required size
-    info.requiredSize = m_tkhdAtom->dataSize() + 8;
+    info.requiredSize = info.canUseExisting ? m_tkhdAtom->dataSize() + 8 : (info.version ? 104 : 92);
     info.timings = computeTimings();
     info.timingsVersion = info.timings.requiredTkhdVersion();
     if (info.version == 0) {
@@ -959,7 +959,6 @@ std::uint64_t Mp4Track::translateOffset(
  *          - the ID of the atom holding these offsets is not "stco" or "co64"
  *
  * \throws Throws std::ios_base::failure when an IO error occurs.
- *
  */
 void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, const vector<std::int64_t> &newMdatOffsets)
 {
@@ -1217,7 +1216,7 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
         size += trakChild->totalSize();
     }
     // ... mdhd total size
-    if (info.timingsVersion == 0) {
+    if (info.timings.requiredMdhdVersion() == 0) {
         // write version 0 where timing fields are 32-bit
         size += 32;
     } else {
-- 
2.43.0


From 1ebdf245eeb52dd9951e47d1612753f8874b8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 088/156] fix: preserve further children of the media atom when
 making MP4 tracks

---
 mp4/mp4track.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 82a63c8..8441d7a 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -87,6 +87,14 @@ constexpr std::uint8_t Mp4Timings::requiredMdhdVersion() const
         : 0;
 }
 
+/*!
+ * \brief Returns whether Mp4Track::makeMedia() generates the child of the mdia atom with the specified \a id so it must not be copied.
+ */
+static constexpr bool isGeneratedMediaChild(std::uint32_t id)
+{
+    return id == Mp4AtomIds::MediaHeader || id == Mp4AtomIds::HandlerReference || id == Mp4AtomIds::MediaInformation;
+}
+
 /*!
  * \class Mpeg4AudioSpecificConfig
  * \brief The Mpeg4AudioSpecificConfig class holds MPEG-4 audio specific config parsed using Mp4Track::parseAudioSpecificConfig().
@@ -1133,6 +1141,13 @@ void Mp4Track::bufferTrackAtoms(Diagnostics &diag)
         }
         trakChild->makeBuffer();
     }
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (!isGeneratedMediaChild(childAtom->id())) {
+                childAtom->makeBuffer();
+            }
+        }
+    }
     if (m_minfAtom) {
         for (Mp4Atom *childAtom = m_minfAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
             if (childAtom->id() == Mp4AtomIds::SampleTable) {
@@ -1225,6 +1240,14 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
     }
     // ... mdia header + hdlr total size + minf header
     size += 8 + (33 + m_name.size()) + 8;
+    // ... further mdia children
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (!isGeneratedMediaChild(childAtom->id())) {
+                size += childAtom->totalSize();
+            }
+        }
+    }
     // ... minf children
     auto dinfAtomWritten = false;
     if (m_minfAtom) {
@@ -1463,6 +1486,14 @@ void Mp4Track::makeMedia(Diagnostics &diag)
     for (int i = 0; i < 3; ++i)
         writer().writeUInt32BE(0); // reserved
     writer().writeTerminatedString(m_name);
+    // write further children
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (!isGeneratedMediaChild(childAtom->id())) {
+                childAtom->copyPreferablyFromBuffer(outputStream(), diag, nullptr);
+            }
+        }
+    }
     // write minf atom
     makeMediaInfo(diag);
     // write size (of mdia atom)
-- 
2.43.0


From bf74a7ede2ec80ebc1ba306fa8372522457ea2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 089/156] fix: preserve further flags when making MP4 track
 headers

---
 mp4/mp4track.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8441d7a..f35037d 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -67,6 +67,8 @@ private:
     std::uint8_t timingsVersion = 0;
     /// \brief Specifies the additional data offset of the existing header. Unspecified if canUseExisting is false.
     std::uint8_t additionalDataOffset = 0;
+    /// \brief Specifies flags of the existing header which are preserved (but otherwise not handled).
+    std::uint32_t furtherFlags = 0;
     /// \brief Specifies whether the buffered header data should be discarded when making a new track header.
     bool discardBuffer = false;
 };
@@ -463,6 +465,7 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     // check whether the existing tkhd atom is not truncated
     if (info.additionalDataOffset + 48u <= m_tkhdAtom->dataSize()) {
         info.canUseExisting = true;
+        info.furtherFlags = BE::toUInt32(m_tkhdAtom->buffer().get() + m_tkhdAtom->headerSize()) & 0xFFFFF8u;
     } else {
         info.truncated = true;
         info.canUseExisting = info.additionalDataOffset < m_tkhdAtom->dataSize();
@@ -1336,7 +1339,7 @@ void Mp4Track::makeTrackHeader(Diagnostics &diag)
 
     // make version and flags
     writer().writeByte(info.writeVersion);
-    std::uint32_t flags = 0;
+    std::uint32_t flags = info.furtherFlags;
     if (isEnabled()) {
         flags |= 0x000001;
     }
-- 
2.43.0


From 93ece5b7f18ad9c6c0cc624b78c74d50d8024b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:45 +0000
Subject: [PATCH 090/156] fix: write size of last MP4 media data atom if it is
 not the last atom anymore

---
 mp4/mp4container.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 47e843b..0e43362 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -266,6 +266,8 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     const auto trackCount = this->trackCount();
     // -> media size of original file
     auto mediaSize = std::uint64_t();
+    // -> whether the last media data atom does not denote its actual size (because it extends to the end of the file or is truncated)
+    auto lastSizeImplicit = false;
 
     // find relevant atoms in original file and determine media size
     Mp4Atom *fileTypeAtom, *progressiveDownloadInfoAtom, *movieAtom, *firstMediaDataAtom, *firstMovieFragmentAtom /*, *userDataAtom*/;
@@ -322,6 +324,15 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     firstMediaDataAtom = level0Atom;
                 }
                 mediaSize += level0Atom->totalSize();
+                if (!level0Atom->nextSibling()) {
+                    stream().seekg(static_cast<iostream::off_type>(level0Atom->startOffset()));
+                    auto denotedSize = static_cast<std::uint64_t>(reader().readUInt32BE());
+                    if (denotedSize == 1) {
+                        stream().seekg(4, ios_base::cur);
+                        denotedSize = reader().readUInt64BE();
+                    }
+                    lastSizeImplicit = denotedSize != level0Atom->totalSize();
+                }
             }
         }
 
@@ -349,6 +360,11 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             initialNewTagPos = newTagPos = ElementPosition::BeforeData;
         }
 
+        // the size of the last media data atom must be written if it would not be the last atom anymore
+        if (lastSizeImplicit && newTagPos == ElementPosition::AfterData) {
+            rewriteRequired = true;
+        }
+
         // user data atom (currently not used)
         //userDataAtom = movieAtom->childById(Mp4AtomIds::UserData);
 
@@ -495,7 +511,7 @@ calculatePadding:
         }
         if (rewriteRequired) {
             // can't put the tags before media data
-            if (!firstMovieFragmentAtom && !fileInfo().forceTagPosition() && !fileInfo().forceIndexPosition()
+            if (!firstMovieFragmentAtom && !lastSizeImplicit && !fileInfo().forceTagPosition() && !fileInfo().forceIndexPosition()
                 && newTagPos != ElementPosition::AfterData) {
                 // writing tag before media data is not forced, its not a DASH file and tags aren't already at the end
                 // -> try to put the tags at the end
@@ -747,6 +763,19 @@ calculatePadding:
                             newMediaDataOffsets.push_back(outputStream.tellp());
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
+                            if (lastSizeImplicit && newTagPos == ElementPosition::AfterData && !level0Atom->nextSibling()) {
+                                // copy data of the atom denoting its actual size because it will be followed by the movie atom
+                                auto size = level0Atom->dataSize();
+                                Mp4Atom::addHeaderSize(size);
+                                Mp4Atom::makeHeader(size, level0Atom->id(), outputWriter);
+                                newMediaDataOffsets.back()
+                                    += static_cast<std::int64_t>(size - level0Atom->dataSize()) - static_cast<std::int64_t>(level0Atom->headerSize());
+                                backupStream.seekg(static_cast<iostream::off_type>(level0Atom->dataOffset()));
+                                CopyHelper<0x10000>().callbackCopy(
+                                    backupStream, outputStream, level0Atom->dataSize(), [&progress] { return progress.isAborted(); },
+                                    [&progress](double fraction) { progress.updateStepPercentageFromFraction(fraction); });
+                                break;
+                            }
                             // copy atom entirely and forward status update calls
                             level0Atom->copyEntirely(outputStream, diag, &progress);
                         }
-- 
2.43.0


From 97a30588f1933f5399525dd4d10e36b6e9b46f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:14 +0000
Subject: [PATCH 091/156] fix: ignore terminator of user data atoms

---
 mp4/mp4atom.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index c8ec698..61e44de 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -108,7 +108,13 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     m_firstChild.reset(child);
     Mp4Atom *sibling = nullptr;
     if (totalSize() < maxTotalSize()) {
-        if (parent()) {
+        if (parent() && parent()->id() == Mp4AtomIds::UserData && maxTotalSize() - totalSize() == 4) {
+            // ignore the null integer which optionally terminates user data atoms (see QuickTime File Format Specification)
+            stream().seekg(static_cast<streamoff>(startOffset() + totalSize()));
+            if (reader().readUInt32BE()) {
+                sibling = new Mp4Atom(*(parent()), startOffset() + totalSize());
+            }
+        } else if (parent()) {
             sibling = new Mp4Atom(*(parent()), startOffset() + totalSize());
         } else {
             sibling = new Mp4Atom(container(), startOffset() + totalSize(), maxTotalSize() - totalSize());
-- 
2.43.0


From 7ffaca880ebd4ccda588db100a8ec9e2b87430c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:53 +0000
Subject: [PATCH 092/156] fix: avoid division by zero if time scale or duration
 of MP4 files is zero

---
 mp4/mp4container.cpp | 27 +++++++++++++++++++++------
 mp4/mp4container.h   |  1 +
 mp4/mp4track.cpp     |  8 +++-----
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 0e43362..5a019d0 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -74,6 +74,23 @@ ElementPosition Mp4Container::determineIndexPosition(Diagnostics &diag) const
     return ElementPosition::Keep;
 }
 
+/*!
+ * \brief Returns the specified \a duration (which is denoted in units of 1 / \a timeScale seconds).
+ * \remarks Returns an empty TimeSpan if \a timeScale is zero and the maximum duration if \a duration exceeds the supported range.
+ */
+TimeSpan Mp4Container::makeDuration(std::uint64_t duration, std::uint32_t timeScale)
+{
+    if (!timeScale) {
+        return TimeSpan();
+    }
+    constexpr auto ticksPerSecond = static_cast<std::uint64_t>(TimeSpan::ticksPerSecond);
+    const auto seconds = duration / timeScale;
+    if (seconds >= static_cast<std::uint64_t>(std::numeric_limits<TimeSpan::TickType>::max()) / ticksPerSecond) {
+        return TimeSpan(std::numeric_limits<TimeSpan::TickType>::max());
+    }
+    return TimeSpan(static_cast<TimeSpan::TickType>(seconds * ticksPerSecond + duration % timeScale * ticksPerSecond / timeScale));
+}
+
 void Mp4Container::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     CPP_UTILITIES_UNUSED(progress) //const string context("parsing header of MP4 container"); will be used when generating notifications
@@ -138,15 +155,13 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = makeDuration(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 1:
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = makeDuration(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
@@ -169,10 +184,10 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (durationSize) {
                         case 4u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));
+                            m_duration = makeDuration(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 8u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt64BE()) / static_cast<double>(m_timeScale));
+                            m_duration = makeDuration(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index c636947..ab848d7 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -27,6 +27,7 @@ public:
     ElementPosition determineIndexPosition(Diagnostics &diag) const override;
 
     static const CppUtilities::DateTime epoch;
+    static CppUtilities::TimeSpan makeDuration(std::uint64_t duration, std::uint32_t timeScale);
 
 protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index f35037d..dc8317d 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1718,7 +1718,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
     m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_duration = Mp4Container::makeDuration(m_rawMdhdDuration, m_timeScale);
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
@@ -2192,13 +2192,11 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         if (!timeScale) {
             timeScale = trakAtom().container().timeScale();
         }
-        if (timeScale) {
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
-        }
+        m_duration = Mp4Container::makeDuration(totalDuration, timeScale);
     }
 
     // calculate average bitrate
-    if (m_bitrate < 0.01 && m_bitrate > -0.01) {
+    if (m_bitrate < 0.01 && m_bitrate > -0.01 && !m_duration.isNull()) {
         m_bitrate = (static_cast<double>(m_size) * 0.0078125) / m_duration.totalSeconds();
     }
 
-- 
2.43.0


From a037e8928a2b61ce407a4d4ca8e7eca65bf47b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:53 +0000
Subject: [PATCH 093/156] fix: check size of atoms with header information of
 MP4 tracks

---
 mp4/mp4container.cpp |  2 +-
 mp4/mp4track.cpp     | 86 ++++++++++++++++++++++++++++++--------------
 2 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 5a019d0..6bbfe5b 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -148,7 +148,7 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                 if (mvhdAtom->dataSize() > 0) {
                     stream().seekg(static_cast<iostream::off_type>(mvhdAtom->dataOffset()));
                     std::uint8_t version = reader().readByte();
-                    if ((version == 1 && mvhdAtom->dataSize() >= 32) || (mvhdAtom->dataSize() >= 20)) {
+                    if (mvhdAtom->dataSize() >= (version == 1 ? 32 : 20)) {
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (version) {
                         case 0:
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index dc8317d..a2d536d 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1659,13 +1659,18 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     BinaryReader &reader = m_trakAtom->reader();
 
     // read tkhd atom
-    m_istream->seekg(static_cast<streamoff>(m_tkhdAtom->startOffset() + 8)); // seek to beg, skip size and name
-    auto atomVersion = reader.readByte(); // read version
-    const auto flags = reader.readUInt24BE();
+    m_istream->seekg(static_cast<streamoff>(m_tkhdAtom->dataOffset())); // seek to beg, skip size and name
+    auto atomVersion = std::uint8_t();
+    auto flags = std::uint32_t();
+    if (m_tkhdAtom->dataSize() >= 4) {
+        atomVersion = reader.readByte(); // read version
+        flags = reader.readUInt24BE();
+    }
+    auto truncated = m_tkhdAtom->dataSize() < (atomVersion == 1 ? 36 : 24);
     modFlagEnum(m_flags, TrackFlags::Enabled, flags & 0x000001);
     modFlagEnum(m_flags, TrackFlags::UsedInPresentation, flags & 0x000002);
     modFlagEnum(m_flags, TrackFlags::UsedWhenPreviewing, flags & 0x000004);
-    switch (atomVersion) {
+    switch (truncated ? std::numeric_limits<std::uint8_t>::max() : atomVersion) {
     case 0:
         m_rawTkhdCreationTime = reader.readUInt32BE();
         m_rawTkhdModificationTime = reader.readUInt32BE();
@@ -1682,7 +1687,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         break;
     default:
         diag.emplace_back(DiagLevel::Critical,
-            "Version of \"tkhd\"-atom not supported. It will be ignored. Track ID, creation time and modification time might not be be determined.",
+            truncated
+                ? "The \"tkhd\"-atom is truncated. It will be ignored. Track ID, creation time and modification time might not be be determined."
+                : "Version of \"tkhd\"-atom not supported. It will be ignored. Track ID, creation time and modification time might not be be determined.",
             context);
         m_rawTkhdCreationTime = m_rawTkhdModificationTime = m_rawTkhdDuration = 0;
         m_creationTime = DateTime();
@@ -1692,9 +1699,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // read mdhd atom
     m_istream->seekg(static_cast<streamoff>(m_mdhdAtom->dataOffset())); // seek to beg, skip size and name
-    atomVersion = reader.readByte(); // read version
-    m_istream->seekg(3, ios_base::cur); // skip flags
-    switch (atomVersion) {
+    atomVersion = std::uint8_t();
+    if (m_mdhdAtom->dataSize() >= 4) {
+        atomVersion = reader.readByte(); // read version
+        m_istream->seekg(3, ios_base::cur); // skip flags
+    }
+    truncated = m_mdhdAtom->dataSize() < (atomVersion == 1 ? 34 : 22);
+    auto languageRead = true;
+    switch (truncated ? std::numeric_limits<std::uint8_t>::max() : atomVersion) {
     case 0:
         m_rawMdhdCreationTime = reader.readUInt32BE();
         m_rawMdhdModificationTime = reader.readUInt32BE();
@@ -1709,18 +1721,21 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         break;
     default:
         diag.emplace_back(DiagLevel::Warning,
-            "Version of \"mdhd\"-atom not supported. It will be ignored. Creation time, modification time, time scale and duration might not be "
-            "determined.",
+            truncated ? "The \"mdhd\"-atom is truncated. It will be ignored. Creation time, modification time, time scale and duration might not be "
+                        "determined."
+                      : "Version of \"mdhd\"-atom not supported. It will be ignored. Creation time, modification time, time scale and duration might "
+                        "not be determined.",
             context);
         m_rawMdhdCreationTime = m_rawMdhdModificationTime = m_rawMdhdDuration = 0;
         m_timeScale = 0;
         m_duration = TimeSpan();
+        languageRead = false;
     }
     m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
     m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
     m_duration = Mp4Container::makeDuration(m_rawMdhdDuration, m_timeScale);
 
-    std::uint16_t tmp = reader.readUInt16BE();
+    std::uint16_t tmp = languageRead ? reader.readUInt16BE() : 0;
     if (tmp) {
         const char buff[] = {
             static_cast<char>(((tmp & 0x7C00) >> 0xA) + 0x60),
@@ -1734,9 +1749,15 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // read hdlr atom
     // -> seek to begin skipping size, name, version, flags and reserved bytes
-    m_istream->seekg(static_cast<streamoff>(m_hdlrAtom->dataOffset() + 8));
+    m_rawMediaType = 0;
+    if (m_hdlrAtom->dataSize() >= 12) {
+        m_istream->seekg(static_cast<streamoff>(m_hdlrAtom->dataOffset() + 8));
+        m_rawMediaType = reader.readUInt32BE();
+    } else {
+        diag.emplace_back(DiagLevel::Critical, "The \"hdlr\"-atom is truncated. The media type can not be determined.", context);
+    }
     // -> track type
-    switch (m_rawMediaType = reader.readUInt32BE()) {
+    switch (m_rawMediaType) {
     case 0x76696465:
         m_mediaType = MediaType::Video;
         break;
@@ -1756,24 +1777,32 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         m_mediaType = MediaType::Unknown;
     }
     // -> name
-    m_istream->seekg(12, ios_base::cur); // skip reserved bytes
-    if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
-        // assume size prefixed string (seems to appear in QuickTime files)
-        m_istream->seekg(1, ios_base::cur);
-        m_name = reader.readString(tmp);
-    } else {
-        // assume null terminated string (appears in MP4 files)
-        m_name = reader.readTerminatedString(m_hdlrAtom->dataSize() - 12 - 4 - 8, 0);
+    m_name.clear();
+    if (m_hdlrAtom->dataSize() > 12 + 4 + 8) {
+        m_istream->seekg(12, ios_base::cur); // skip reserved bytes
+        m_name = reader.readString(m_hdlrAtom->dataSize() - 12 - 4 - 8);
+        if (m_name.back() != '\0' && static_cast<std::uint8_t>(m_name.front()) == m_name.size() - 1) {
+            // assume size prefixed string (seems to appear in QuickTime files)
+            m_name.erase(0, 1);
+        } else {
+            // assume null terminated string (appears in MP4 files)
+            m_name.resize(std::min(m_name.size(), m_name.find('\0')));
+        }
     }
 
     // read stco atom (only chunk count)
     m_chunkOffsetSize = (m_stcoAtom->id() == Mp4AtomIds::ChunkOffset64) ? 8 : 4;
-    m_istream->seekg(static_cast<streamoff>(m_stcoAtom->dataOffset() + 4));
-    m_chunkCount = reader.readUInt32BE();
+    m_chunkCount = 0;
+    if (m_stcoAtom->dataSize() >= 8) {
+        m_istream->seekg(static_cast<streamoff>(m_stcoAtom->dataOffset() + 4));
+        m_chunkCount = reader.readUInt32BE();
+    } else {
+        diag.emplace_back(DiagLevel::Critical, "The stco/co64 atom is truncated. There are no chunk offsets present.", context);
+    }
 
     // read stsd atom
     m_istream->seekg(static_cast<streamoff>(m_stsdAtom->dataOffset() + 4)); // seek to beg, skip size, name, version and flags
-    const auto entryCount = reader.readUInt32BE();
+    const auto entryCount = m_stsdAtom->dataSize() >= 8 ? reader.readUInt32BE() : std::uint32_t();
     Mp4Atom *esDescParentAtom = nullptr;
     if (entryCount) {
         try {
@@ -2201,8 +2230,13 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
 
     // read stsc atom (only number of entries)
-    m_istream->seekg(static_cast<streamoff>(m_stscAtom->dataOffset() + 4));
-    m_sampleToChunkEntryCount = reader.readUInt32BE();
+    m_sampleToChunkEntryCount = 0;
+    if (m_stscAtom->dataSize() >= 8) {
+        m_istream->seekg(static_cast<streamoff>(m_stscAtom->dataOffset() + 4));
+        m_sampleToChunkEntryCount = reader.readUInt32BE();
+    } else {
+        diag.emplace_back(DiagLevel::Critical, "The stsc atom is truncated. There are no \"sample to chunk\" entries present.", context);
+    }
 }
 
 } // namespace TagParser
-- 
2.43.0


From 55eed2a97c1028973932554420c5bbd00d35d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:53 +0000
Subject: [PATCH 094/156] fix: read empty and damaged chunk tables of MP4
 tracks

---
 mp4/mp4track.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index a2d536d..9dc8dda 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -221,20 +221,20 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
         // verify integrity of the chunk offset table
         auto offsetSize = m_stcoAtom->id() == Mp4AtomIds::ChunkOffset64 ? 8u : 4u;
         auto actualTableSize = m_stcoAtom->dataSize();
-        if (actualTableSize < (8 + offsetSize)) {
+        if (actualTableSize < (chunkCount() ? 8 + offsetSize : 8)) {
             diag.emplace_back(DiagLevel::Critical, "The stco/co64 atom is truncated. There are no chunk offsets present.", context);
             throw InvalidDataException();
         } else {
             actualTableSize -= 8;
         }
         std::uint32_t actualChunkCount = chunkCount();
-        std::uint64_t calculatedTableSize = chunkCount() * offsetSize;
+        std::uint64_t calculatedTableSize = static_cast<std::uint64_t>(chunkCount()) * offsetSize;
         if (calculatedTableSize < actualTableSize) {
             diag.emplace_back(DiagLevel::Critical,
                 "The stco/co64 atom stores more chunk offsets as denoted. The additional chunk offsets will be ignored.", context);
         } else if (calculatedTableSize > actualTableSize) {
             diag.emplace_back(DiagLevel::Critical, "The stco/co64 atom is truncated. It stores less chunk offsets as denoted.", context);
-            actualChunkCount = static_cast<std::uint32_t>(std::floor(static_cast<double>(actualTableSize) / static_cast<double>(offsetSize)));
+            actualChunkCount = static_cast<std::uint32_t>(actualTableSize / offsetSize);
         }
         // read the table
         offsets.reserve(actualChunkCount);
@@ -532,7 +532,7 @@ vector<tuple<std::uint32_t, std::uint32_t, std::uint32_t>> Mp4Track::readSampleT
     }
     // verify integrity of the sample to chunk table
     std::uint64_t actualTableSize = m_stscAtom->dataSize();
-    if (actualTableSize < 20) {
+    if (actualTableSize < (sampleToChunkEntryCount() ? 20 : 8)) {
         diag.emplace_back(DiagLevel::Critical, "The stsc atom is truncated. There are no \"sample to chunk\" entries present.", context);
         throw InvalidDataException();
     } else {
@@ -586,7 +586,10 @@ vector<std::uint64_t> Mp4Track::readChunkSizes(Diagnostics &diag)
     if (!sampleToChunkTable.empty()) {
         // prepare reading
         auto tableIterator = sampleToChunkTable.cbegin();
-        chunkSizes.reserve(m_chunkCount);
+        // ignore chunks which are denoted but not present
+        const auto presentChunks = m_stcoAtom->dataSize() > 8 ? (m_stcoAtom->dataSize() - 8) / (m_stcoAtom->id() == Mp4AtomIds::ChunkOffset64 ? 8 : 4) : 0;
+        const auto chunkCount = static_cast<std::uint32_t>(std::min<std::uint64_t>(m_chunkCount, presentChunks));
+        chunkSizes.reserve(chunkCount);
         // read first entry
         size_t sampleIndex = 0;
         std::uint32_t previousChunkIndex = get<0>(*tableIterator); // the first chunk has the index 1 and not zero!
@@ -599,7 +602,7 @@ vector<std::uint64_t> Mp4Track::readChunkSizes(Diagnostics &diag)
         ++tableIterator;
         for (const auto tableEnd = sampleToChunkTable.cend(); tableIterator != tableEnd; ++tableIterator) {
             std::uint32_t firstChunkIndex = get<0>(*tableIterator);
-            if (firstChunkIndex > previousChunkIndex && firstChunkIndex <= m_chunkCount) {
+            if (firstChunkIndex > previousChunkIndex && firstChunkIndex <= chunkCount) {
                 addChunkSizeEntries(chunkSizes, firstChunkIndex - previousChunkIndex, sampleIndex, samplesPerChunk, diag);
             } else {
                 diag.emplace_back(DiagLevel::Critical,
@@ -611,8 +614,8 @@ vector<std::uint64_t> Mp4Track::readChunkSizes(Diagnostics &diag)
             previousChunkIndex = firstChunkIndex;
             samplesPerChunk = get<1>(*tableIterator);
         }
-        if (m_chunkCount >= previousChunkIndex) {
-            addChunkSizeEntries(chunkSizes, m_chunkCount + 1 - previousChunkIndex, sampleIndex, samplesPerChunk, diag);
+        if (chunkCount >= previousChunkIndex) {
+            addChunkSizeEntries(chunkSizes, chunkCount + 1 - previousChunkIndex, sampleIndex, samplesPerChunk, diag);
         }
     }
     return chunkSizes;
-- 
2.43.0


From e7e8335d03eb225e3fd1b5811fbade2bbd517060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 095/156] fix: read sampling frequency of MP4 tracks which is
 stored as fixed point number

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 9dc8dda..a2f7aae 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1841,7 +1841,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_bitsPerSample = reader.readUInt16BE();
                     m_istream->seekg(4, ios_base::cur); // skip reserved bytes (again)
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = reader.readUInt32BE() >> 16;
+                        m_samplingFrequency = reader.readUInt32BE();
                         if (codecConfigContainerAtom->id() != FourccIds::DolbyMpl) {
                             m_samplingFrequency >>= 16;
                         }
-- 
2.43.0


From 53c9094878a0a83b0afb6e411d533743e50c9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 096/156] fix: check index of MPEG-4 sampling frequency
 correctly

---
 mp4/mp4track.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index a2f7aae..1fe11ae 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1960,14 +1960,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
-- 
2.43.0


From 289bc4e14eaaffbc9b84c47e8fc4e4fe59150f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 097/156] fix: read core coder delay of MPEG-4 audio config
 completely

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 1fe11ae..43dfa41 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -779,7 +779,7 @@ unique_ptr<Mpeg4AudioSpecificConfig> Mp4Track::parseAudioSpecificConfig(
         case ErAacLd:
             audioCfg->frameLengthFlag = bitReader.readBits<std::uint8_t>(1);
             if ((audioCfg->dependsOnCoreCoder = bitReader.readBit())) {
-                audioCfg->coreCoderDelay = bitReader.readBits<std::uint8_t>(14);
+                audioCfg->coreCoderDelay = bitReader.readBits<std::uint16_t>(14);
             }
             audioCfg->extensionFlag = bitReader.readBit();
             if (audioCfg->channelConfiguration == 0) {
-- 
2.43.0


From 42cb6f53b35ba60794c4ddfff799b9da0cd89496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 098/156] fix: read compact sample sizes of MP4 tracks

---
 mp4/mp4track.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 43dfa41..6979872 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2046,17 +2046,19 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                 diag.emplace_back(DiagLevel::Critical, "The stsz atom is truncated. It stores less entries as denoted.", context);
                 actualSampleCount = static_cast<std::uint64_t>(floor(static_cast<double>(actualSampleSizeTableSize) / (0.125 * fieldSize)));
             }
-            m_sampleSizes.reserve(actualSampleCount);
-            std::uint32_t i = 1;
+            if (fieldSize >= 4) {
+                m_sampleSizes.reserve(actualSampleCount);
+            }
+            auto i = std::uint64_t(1);
             switch (fieldSize) {
             case 4:
-                for (; i <= actualSampleCount; i += 2) {
+                for (; i + 1 <= actualSampleCount; i += 2) {
                     std::uint8_t val = reader.readByte();
                     m_sampleSizes.push_back(val >> 4);
-                    m_sampleSizes.push_back(val & 0xF0);
-                    m_size += (val >> 4) + (val & 0xF0);
+                    m_sampleSizes.push_back(val & 0x0F);
+                    m_size += (val >> 4) + (val & 0x0F);
                 }
-                if (i <= actualSampleCount + 1) {
+                if (i <= actualSampleCount) {
                     m_sampleSizes.push_back(reader.readByte() >> 4);
                     m_size += m_sampleSizes.back();
                 }
-- 
2.43.0


From 81c22119402a90312bbbdbaed3df57e37f20d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 099/156] fix: avoid considering fragments of MP4 tracks again
 when reading chunk offsets

---
 mp4/mp4track.cpp | 139 +----------------------------------------------
 1 file changed, 3 insertions(+), 136 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 6979872..df2b47c 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -200,7 +200,8 @@ TrackType Mp4Track::type() const
 }
 
 /*!
- * \brief Reads the chunk offsets from the stco atom and fragments if \a parseFragments is true.
+ * \brief Reads the chunk offsets from the stco atom.
+ * \param parseFragments This parameter is not used anymore. The fragments are already considered when parsing the header.
  * \returns Returns the chunk offset table for the track.
  * \throws Throws InvalidDataException when
  *          - there is no stream assigned.
@@ -211,6 +212,7 @@ TrackType Mp4Track::type() const
  */
 std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagnostics &diag)
 {
+    CPP_UTILITIES_UNUSED(parseFragments)
     static const auto context = std::string("reading chunk offset table of MP4 track");
     if (!isHeaderValid() || !m_istream) {
         diag.emplace_back(DiagLevel::Critical, "Track has not been parsed.", context);
@@ -252,141 +254,6 @@ std::vector<std::uint64_t> Mp4Track::readChunkOffsets(bool parseFragments, Diagn
             break;
         }
     }
-    // read sample offsets of fragments
-    if (parseFragments) {
-        //std::uint64_t totalDuration = 0;
-        for (Mp4Atom *moofAtom = m_trakAtom->container().firstElement()->siblingByIdIncludingThis(Mp4AtomIds::MovieFragment, diag); moofAtom;
-            moofAtom = moofAtom->siblingById(Mp4AtomIds::MovieFragment, diag)) {
-            moofAtom->parse(diag);
-            for (Mp4Atom *trafAtom = moofAtom->childById(Mp4AtomIds::TrackFragment, diag); trafAtom;
-                trafAtom = trafAtom->siblingById(Mp4AtomIds::TrackFragment, diag)) {
-                trafAtom->parse(diag);
-                for (Mp4Atom *tfhdAtom = trafAtom->childById(Mp4AtomIds::TrackFragmentHeader, diag); tfhdAtom;
-                    tfhdAtom = tfhdAtom->siblingById(Mp4AtomIds::TrackFragmentHeader, diag)) {
-                    tfhdAtom->parse(diag);
-                    std::uint32_t calculatedDataSize = 0;
-                    if (tfhdAtom->dataSize() < calculatedDataSize) {
-                        diag.emplace_back(DiagLevel::Critical, "tfhd atom is truncated.", context);
-                    } else {
-                        inputStream().seekg(static_cast<streamoff>(tfhdAtom->dataOffset() + 1));
-                        const std::uint32_t flags = reader().readUInt24BE();
-                        if (m_id == reader().readUInt32BE()) { // check track ID
-                            if (flags & 0x000001) { // base-data-offset present
-                                calculatedDataSize += 8;
-                            }
-                            if (flags & 0x000002) { // sample-description-index present
-                                calculatedDataSize += 4;
-                            }
-                            if (flags & 0x000008) { // default-sample-duration present
-                                calculatedDataSize += 4;
-                            }
-                            if (flags & 0x000010) { // default-sample-size present
-                                calculatedDataSize += 4;
-                            }
-                            if (flags & 0x000020) { // default-sample-flags present
-                                calculatedDataSize += 4;
-                            }
-                            // some variables are currently skipped because they are currently not interesting
-                            //std::uint64_t baseDataOffset = moofAtom->startOffset();
-                            //std::uint32_t defaultSampleDescriptionIndex = 0;
-                            //std::uint32_t defaultSampleDuration = 0;
-                            std::uint32_t defaultSampleSize = 0;
-                            //std::uint32_t defaultSampleFlags = 0;
-                            if (tfhdAtom->dataSize() < calculatedDataSize) {
-                                diag.emplace_back(DiagLevel::Critical, "tfhd atom is truncated (presence of fields denoted).", context);
-                            } else {
-                                if (flags & 0x000001) { // base-data-offset present
-                                    //baseDataOffset = reader.readUInt64();
-                                    inputStream().seekg(8, ios_base::cur);
-                                }
-                                if (flags & 0x000002) { // sample-description-index present
-                                    //defaultSampleDescriptionIndex = reader.readUInt32();
-                                    inputStream().seekg(4, ios_base::cur);
-                                }
-                                if (flags & 0x000008) { // default-sample-duration present
-                                    //defaultSampleDuration = reader().readUInt32BE();
-                                    inputStream().seekg(4, ios_base::cur);
-                                }
-                                if (flags & 0x000010) { // default-sample-size present
-                                    defaultSampleSize = reader().readUInt32BE();
-                                }
-                                if (flags & 0x000020) { // default-sample-flags present
-                                    //defaultSampleFlags = reader().readUInt32BE();
-                                    inputStream().seekg(4, ios_base::cur);
-                                }
-                            }
-                            for (Mp4Atom *trunAtom = trafAtom->childById(Mp4AtomIds::TrackFragmentRun, diag); trunAtom;
-                                trunAtom = trunAtom->siblingById(Mp4AtomIds::TrackFragmentRun, diag)) {
-                                std::uint32_t trunCalculatedDataSize = 8;
-                                if (trunAtom->dataSize() < trunCalculatedDataSize) {
-                                    diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
-                                } else {
-                                    inputStream().seekg(static_cast<streamoff>(trunAtom->dataOffset() + 1));
-                                    std::uint32_t trunFlags = reader().readUInt24BE();
-                                    std::uint32_t sampleCount = reader().readUInt32BE();
-                                    m_sampleCount += sampleCount;
-                                    if (trunFlags & 0x000001) { // data offset present
-                                        trunCalculatedDataSize += 4;
-                                    }
-                                    if (trunFlags & 0x000004) { // first-sample-flags present
-                                        trunCalculatedDataSize += 4;
-                                    }
-                                    std::uint32_t entrySize = 0;
-                                    if (trunFlags & 0x000100) { // sample-duration present
-                                        entrySize += 4;
-                                    }
-                                    if (trunFlags & 0x000200) { // sample-size present
-                                        entrySize += 4;
-                                    }
-                                    if (trunFlags & 0x000400) { // sample-flags present
-                                        entrySize += 4;
-                                    }
-                                    if (trunFlags & 0x000800) { // sample-composition-time-offsets present
-                                        entrySize += 4;
-                                    }
-                                    trunCalculatedDataSize += entrySize * sampleCount;
-                                    if (trunAtom->dataSize() < trunCalculatedDataSize) {
-                                        diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
-                                    } else {
-                                        if (trunFlags & 0x000001) { // data offset present
-                                            inputStream().seekg(4, ios_base::cur);
-                                            //int32 dataOffset = reader().readInt32BE();
-                                        }
-                                        if (trunFlags & 0x000004) { // first-sample-flags present
-                                            inputStream().seekg(4, ios_base::cur);
-                                        }
-                                        for (std::uint32_t i = 0; i < sampleCount; ++i) {
-                                            if (trunFlags & 0x000100) { // sample-duration present
-                                                //totalDuration += reader().readUInt32BE();
-                                                inputStream().seekg(4, ios_base::cur);
-                                            } else {
-                                                //totalDuration += defaultSampleDuration;
-                                            }
-                                            if (trunFlags & 0x000200) { // sample-size present
-                                                m_sampleSizes.push_back(reader().readUInt32BE());
-                                                m_size += m_sampleSizes.back();
-                                            } else {
-                                                m_size += defaultSampleSize;
-                                            }
-                                            if (trunFlags & 0x000400) { // sample-flags present
-                                                inputStream().seekg(4, ios_base::cur);
-                                            }
-                                            if (trunFlags & 0x000800) { // sample-composition-time-offsets present
-                                                inputStream().seekg(4, ios_base::cur);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                            if (m_sampleSizes.empty() && defaultSampleSize) {
-                                m_sampleSizes.push_back(defaultSampleSize);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
     return offsets;
 }
 
-- 
2.43.0


From 21dd6e0c4f4b0baebc118625d1296cf0f1be38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 100/156] fix: check sizes of fragment headers of MP4 tracks

---
 mp4/mp4track.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index df2b47c..0f7ad6d 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1966,7 +1966,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
             for (Mp4Atom *tfhdAtom = trafAtom->childById(TrackFragmentHeader, diag); tfhdAtom;
                 tfhdAtom = tfhdAtom->siblingById(TrackFragmentHeader, diag)) {
                 tfhdAtom->parse(diag);
-                std::uint32_t calculatedDataSize = 0;
+                std::uint32_t calculatedDataSize = 8;
                 if (tfhdAtom->dataSize() < calculatedDataSize) {
                     diag.emplace_back(DiagLevel::Critical, "tfhd atom is truncated.", context);
                 } else {
@@ -2018,7 +2018,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         }
                         for (Mp4Atom *trunAtom = trafAtom->childById(TrackFragmentRun, diag); trunAtom;
                             trunAtom = trunAtom->siblingById(TrackFragmentRun, diag)) {
-                            std::uint32_t trunCalculatedDataSize = 8;
+                            std::uint64_t trunCalculatedDataSize = 8;
                             if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                 diag.emplace_back(DiagLevel::Critical, "trun atom is truncated.", context);
                             } else {
@@ -2045,7 +2045,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                 if (trunFlags & 0x000800) { // sample-composition-time-offsets present
                                     entrySize += 4;
                                 }
-                                trunCalculatedDataSize += entrySize * sampleCount;
+                                trunCalculatedDataSize += static_cast<std::uint64_t>(entrySize) * sampleCount;
                                 if (trunAtom->dataSize() < trunCalculatedDataSize) {
                                     diag.emplace_back(DiagLevel::Critical, "trun atom is truncated (presence of fields denoted).", context);
                                 } else {
@@ -2056,6 +2056,11 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     if (trunFlags & 0x000004) { // first-sample-flags present
                                         m_istream->seekg(4, ios_base::cur);
                                     }
+                                    if (!entrySize) { // use defaults for all samples
+                                        totalDuration += static_cast<std::uint64_t>(defaultSampleDuration) * sampleCount;
+                                        m_size += static_cast<std::uint64_t>(defaultSampleSize) * sampleCount;
+                                        continue;
+                                    }
                                     for (std::uint32_t i = 0; i < sampleCount; ++i) {
                                         if (trunFlags & 0x000100) { // sample-duration present
                                             totalDuration += reader.readUInt32BE();
-- 
2.43.0


From 0d8b158bf3ea747f40f8bc77f485238fa18dd9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 101/156] fix: limit size of truncated MPEG-4 descriptors
 correctly

---
 mp4/mpeg4descriptor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mp4/mpeg4descriptor.cpp b/mp4/mpeg4descriptor.cpp
index 0d3bb29..07c7389 100644
--- a/mp4/mpeg4descriptor.cpp
+++ b/mp4/mpeg4descriptor.cpp
@@ -69,14 +69,17 @@ void Mpeg4Descriptor::internalParse(Diagnostics &diag)
     // read data size
     std::uint8_t tmp = reader().readByte();
     m_dataSize = tmp & 0x7F;
-    while (tmp & 0x80) {
+    while ((tmp & 0x80) && m_sizeLength < 4) {
         m_dataSize = (m_dataSize << 7) | ((tmp = reader().readByte()) & 0x7F);
         ++m_sizeLength;
     }
     // check whether the denoted data size exceeds the available data size
     if (maxTotalSize() < totalSize()) {
         diag.emplace_back(DiagLevel::Warning, "The descriptor seems to be truncated; unable to parse siblings of that ", parsingContext());
-        m_dataSize = static_cast<std::uint32_t>(maxTotalSize()); // using max size instead
+        if (maxTotalSize() < headerSize()) {
+            throw TruncatedDataException();
+        }
+        m_dataSize = static_cast<std::uint32_t>(maxTotalSize() - headerSize()); // using max size instead
     }
     m_firstChild.reset();
 
-- 
2.43.0


From 10cbc712b07780e700e94de04850c061c57c33d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:06 +0000
Subject: [PATCH 102/156] fix: check size of MPEG-4 elementary stream
 descriptors

---
 mp4/mp4track.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 0f7ad6d..cdc68c0 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -515,16 +515,29 @@ std::unique_ptr<Mpeg4ElementaryStreamInfo> Mp4Track::parseMpeg4ElementaryStreamI
             }
             // read stream info
             reader.stream()->seekg(static_cast<streamoff>(esDesc.dataOffset()));
+            auto bytesRemaining = esDesc.dataSize();
+            const auto ensureRemaining = [&bytesRemaining](std::uint32_t bytes) {
+                if (bytesRemaining < bytes) {
+                    throw TruncatedDataException();
+                }
+                bytesRemaining -= bytes;
+            };
+            ensureRemaining(3);
             esInfo = make_unique<Mpeg4ElementaryStreamInfo>();
             esInfo->id = reader.readUInt16BE();
             esInfo->esDescFlags = reader.readByte();
             if (esInfo->dependencyFlag()) {
+                ensureRemaining(2);
                 esInfo->dependsOnId = reader.readUInt16BE();
             }
             if (esInfo->urlFlag()) {
-                esInfo->url = reader.readString(reader.readByte());
+                ensureRemaining(1);
+                const auto urlSize = reader.readByte();
+                ensureRemaining(urlSize);
+                esInfo->url = reader.readString(urlSize);
             }
             if (esInfo->ocrFlag()) {
+                ensureRemaining(2);
                 esInfo->ocrId = reader.readUInt16BE();
             }
             for (Mpeg4Descriptor *esDescChild
@@ -534,6 +547,9 @@ std::unique_ptr<Mpeg4ElementaryStreamInfo> Mp4Track::parseMpeg4ElementaryStreamI
                 switch (esDescChild->id()) {
                 case Mpeg4DescriptorIds::DecoderConfigDescr:
                     // read decoder config descriptor
+                    if (esDescChild->dataSize() < 13) {
+                        throw TruncatedDataException();
+                    }
                     reader.stream()->seekg(static_cast<streamoff>(esDescChild->dataOffset()));
                     esInfo->objectTypeId = reader.readByte();
                     esInfo->decCfgDescFlags = reader.readByte();
-- 
2.43.0


From 9d19e26a2d3213b54c19bc4d4952ee460781b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:06 +0000
Subject: [PATCH 103/156] fix: read extension of MPEG-4 audio config if there
 is no error protection config

---
 mp4/mp4track.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index cdc68c0..f831208 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -711,13 +711,11 @@ unique_ptr<Mpeg4AudioSpecificConfig> Mp4Track::parseAudioSpecificConfig(
         case ErParametric:
         case ErAacEld:
             switch (audioCfg->epConfig = bitReader.readBits<std::uint8_t>(2)) {
-            case 2:
-                break;
-            case 3:
-                bitReader.skipBits(1);
+            case 0:
+            case 1:
                 break;
             default:
-                throw NotImplementedException(); // TODO
+                throw NotImplementedException(); // TODO: parse ErrorProtectionSpecificConfig
             }
             break;
         }
-- 
2.43.0


From b4a722c9f892cebb9ceb2ab7d15c819537df88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:06 +0000
Subject: [PATCH 104/156] fix: check whether first chunk of MP4 track is
 present before reading MPEG audio frame

---
 mp4/mp4track.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index f831208..781d0eb 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1872,9 +1872,17 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                             switch (m_format.general) {
                             case GeneralMediaFormat::Mpeg1Audio:
                             case GeneralMediaFormat::Mpeg2Audio: {
+                                if (!m_chunkCount || m_stcoAtom->dataSize() < 8 + m_chunkOffsetSize) {
+                                    break;
+                                }
                                 MpegAudioFrame frame;
                                 m_istream->seekg(static_cast<streamoff>(m_stcoAtom->dataOffset() + 8));
-                                m_istream->seekg(static_cast<streamoff>(m_chunkOffsetSize == 8 ? reader.readUInt64BE() : reader.readUInt32BE()));
+                                const auto chunkOffset = m_chunkOffsetSize == 8 ? reader.readUInt64BE() : reader.readUInt32BE();
+                                const auto fileSize = m_trakAtom->container().fileInfo().size();
+                                if (chunkOffset >= fileSize || fileSize - chunkOffset < 4) {
+                                    throw TruncatedDataException();
+                                }
+                                m_istream->seekg(static_cast<streamoff>(chunkOffset));
                                 frame.parseHeader(reader, diag);
                                 MpegAudioFrameStream::addInfo(frame, *this);
                                 break;
-- 
2.43.0


From 4bd8f392a04cb8e48f092f0f2aef5ef7dc2a4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:34 +0000
Subject: [PATCH 105/156] fix: skip QuickTime sound description of version 2
 completely

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 781d0eb..3122697 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1735,7 +1735,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                             codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 16);
                             break;
                         case 2:
-                            codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 32);
+                            codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 36);
                             break;
                         default:
                             codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28);
-- 
2.43.0


From ecb7dfec261ff85395f2721443ab1d2de54d34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:59 +0000
Subject: [PATCH 106/156] fix: avoid overflow if creation or modification time
 of MP4 files exceeds supported range

---
 mp4/mp4container.cpp | 21 +++++++++++++++++----
 mp4/mp4container.h   |  1 +
 mp4/mp4track.cpp     |  4 ++--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 6bbfe5b..2b9613f 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -11,7 +11,9 @@
 #include <c++utilities/io/copy.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
 #include <filesystem>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <tuple>
@@ -91,6 +93,17 @@ TimeSpan Mp4Container::makeDuration(std::uint64_t duration, std::uint32_t timeSc
     return TimeSpan(static_cast<TimeSpan::TickType>(seconds * ticksPerSecond + duration % timeScale * ticksPerSecond / timeScale));
 }
 
+/*!
+ * \brief Returns the date and time which is the specified number of \a seconds after the epoch.
+ * \remarks Returns the latest possible time if the supported range is exceeded.
+ */
+DateTime Mp4Container::makeTime(std::uint64_t seconds)
+{
+    constexpr auto ticksPerSecond = static_cast<std::uint64_t>(TimeSpan::ticksPerSecond);
+    const auto maxSeconds = (static_cast<std::uint64_t>(std::numeric_limits<TimeSpan::TickType>::max()) - epoch.totalTicks()) / ticksPerSecond;
+    return epoch + TimeSpan(static_cast<TimeSpan::TickType>(std::min(seconds, maxSeconds) * ticksPerSecond));
+}
+
 void Mp4Container::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     CPP_UTILITIES_UNUSED(progress) //const string context("parsing header of MP4 container"); will be used when generating notifications
@@ -152,14 +165,14 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (version) {
                         case 0:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
+                            m_creationTime = makeTime(reader().readUInt32BE());
+                            m_modificationTime = makeTime(reader().readUInt32BE());
                             m_timeScale = reader().readUInt32BE();
                             m_duration = makeDuration(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 1:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            m_creationTime = makeTime(reader().readUInt64BE());
+                            m_modificationTime = makeTime(reader().readUInt64BE());
                             m_timeScale = reader().readUInt32BE();
                             m_duration = makeDuration(reader().readUInt64BE(), m_timeScale);
                             break;
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index ab848d7..57c8a5a 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -27,6 +27,7 @@ public:
     ElementPosition determineIndexPosition(Diagnostics &diag) const override;
 
     static const CppUtilities::DateTime epoch;
+    static CppUtilities::DateTime makeTime(std::uint64_t seconds);
     static CppUtilities::TimeSpan makeDuration(std::uint64_t duration, std::uint32_t timeScale);
 
 protected:
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 3122697..ede1b7c 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1615,8 +1615,8 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         m_duration = TimeSpan();
         languageRead = false;
     }
-    m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
-    m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
+    m_creationTime = Mp4Container::makeTime(m_rawMdhdCreationTime);
+    m_modificationTime = Mp4Container::makeTime(m_rawMdhdModificationTime);
     m_duration = Mp4Container::makeDuration(m_rawMdhdDuration, m_timeScale);
 
     std::uint16_t tmp = languageRead ? reader.readUInt16BE() : 0;
-- 
2.43.0


From 02e11faaede90c94deed8fd10b2d1fdc66db5e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 107/156] fix: determine missing times of MP4 files from tracks
 without affecting present ones

---
 mp4/mp4container.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 2b9613f..b78cca4 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -229,17 +229,18 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                 ++trackNum;
             }
             // get overall duration, creation time and modification time if not determined yet
-            if (m_duration.isNull() || m_modificationTime.isNull() || m_creationTime.isNull()) {
-                for (const auto &track : tracks()) {
-                    if (track->duration() > m_duration) {
-                        m_duration = track->duration();
-                    }
-                    if (track->modificationTime() > m_modificationTime) {
-                        m_modificationTime = track->modificationTime();
-                    }
-                    if (track->creationTime() < m_creationTime) {
-                        m_creationTime = track->creationTime();
-                    }
+            const auto durationMissing = m_duration.isNull(), modificationTimeMissing = m_modificationTime.isNull(),
+                       creationTimeMissing = m_creationTime.isNull();
+            for (const auto &track : tracks()) {
+                if (durationMissing && track->duration() > m_duration) {
+                    m_duration = track->duration();
+                }
+                if (modificationTimeMissing && track->modificationTime() > m_modificationTime) {
+                    m_modificationTime = track->modificationTime();
+                }
+                if (creationTimeMissing && !track->creationTime().isNull()
+                    && (m_creationTime.isNull() || track->creationTime() < m_creationTime)) {
+                    m_creationTime = track->creationTime();
                 }
             }
         }
-- 
2.43.0


From 842b6bacf920d5a0741ceeefaebef2c401e4d90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:05 +0000
Subject: [PATCH 108/156] fix: find movie extends header of fragmented MP4
 files

---
 mp4/mp4container.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index b78cca4..559cba5 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -188,8 +188,16 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                 diag.emplace_back(DiagLevel::Critical, "mvhd atom is does not exist.", context);
             }
             // get mvex atom which holds default values for fragmented files
-            if (Mp4Atom *mehdAtom = moovAtom->subelementByPath(diag, Mp4AtomIds::MovieExtends, Mp4AtomIds::MovieExtendsHeader)) {
-                m_fragmented = true;
+            Mp4Atom *mehdAtom = nullptr;
+            try {
+                if (Mp4Atom *const mvexAtom = moovAtom->childById(Mp4AtomIds::MovieExtends, diag)) {
+                    m_fragmented = true;
+                    mehdAtom = mvexAtom->childById(Mp4AtomIds::MovieExtendsHeader, diag);
+                }
+            } catch (const Failure &) {
+                diag.emplace_back(DiagLevel::Warning, "Unable to parse mvex atom.", context);
+            }
+            if (mehdAtom) {
                 if (mehdAtom->dataSize() > 0) {
                     stream().seekg(static_cast<iostream::off_type>(mehdAtom->dataOffset()));
                     unsigned int durationSize = reader().readByte() == 1u ? 8u : 4u; // duration size depends on atom version
-- 
2.43.0


From b4c759b453ba260f82b8bd34d508ca0fc861d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 109/156] fix: prevent stack overflow when dealing with files
 with many elements

---
 genericfileelement.h | 73 ++++++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index eef3987..38b0f3b 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -65,6 +65,7 @@ public:
     GenericFileElement(ContainerType &container, std::uint64_t startOffset, std::uint64_t maxSize);
     GenericFileElement(const GenericFileElement &other) = delete;
     GenericFileElement(GenericFileElement &other) = delete;
+    ~GenericFileElement();
     GenericFileElement &operator=(const GenericFileElement &other) = delete;
 
     ContainerType &container();
@@ -148,6 +149,8 @@ private:
     void copyInternal(
         TargetStream &targetStream, std::uint64_t startOffset, std::uint64_t bytesToCopy, Diagnostics &diag, AbortableProgressFeedback *progress);
 
+    static void destroy(std::unique_ptr<ImplementationType> &element);
+
     ContainerType *m_container;
     bool m_parsed;
 
@@ -218,6 +221,37 @@ GenericFileElement<ImplementationType>::GenericFileElement(
 {
 }
 
+/*!
+ * \brief Destroys the element and all subsequent elements.
+ */
+template <class ImplementationType> GenericFileElement<ImplementationType>::~GenericFileElement()
+{
+    destroy(m_firstChild);
+    destroy(m_nextSibling);
+}
+
+/*!
+ * \brief Destroys the specified \a element and all its subsequent elements.
+ * \remarks This is not left to the destructors of the smart pointers because the recursion would overflow the stack if
+ *          there are many elements.
+ */
+template <class ImplementationType> void GenericFileElement<ImplementationType>::destroy(std::unique_ptr<ImplementationType> &element)
+{
+    auto pending = std::move(element);
+    while (pending) {
+        auto next = std::move(pending->m_nextSibling);
+        if (auto child = std::move(pending->m_firstChild)) {
+            auto *lastChild = child.get();
+            while (lastChild->m_nextSibling) {
+                lastChild = lastChild->m_nextSibling.get();
+            }
+            lastChild->m_nextSibling = std::move(next);
+            next = std::move(child);
+        }
+        pending = std::move(next);
+    }
+}
+
 /*!
  * \brief Returns the related container.
  */
@@ -757,8 +791,8 @@ template <class ImplementationType> void GenericFileElement<ImplementationType>:
     m_idLength = 0;
     m_dataSize = 0;
     m_sizeLength = 0;
-    m_nextSibling = nullptr;
-    m_firstChild = nullptr;
+    destroy(m_nextSibling);
+    destroy(m_firstChild);
     m_parsed = false;
 }
 
@@ -823,25 +857,24 @@ template <class ImplementationType>
 void GenericFileElement<ImplementationType>::validateSubsequentElementStructure(
     Diagnostics &diag, std::uint64_t *paddingSize, AbortableProgressFeedback *progress)
 {
-    if (progress) {
-        progress->stopIfAborted();
-    }
-    // validate element itself by just parsing it
-    parse(diag);
-    // validate children
-    if (firstChild()) {
-        try {
-            firstChild()->validateSubsequentElementStructure(diag, paddingSize, progress);
-        } catch (const Failure &) {
-            // ignore critical errors in child structure to continue validating siblings
-            // (critical notifications about the errors should have already been added to diag, so nothing to do)
+    // iterate over siblings (instead of using recursion to avoid overflowing the stack if there are many siblings)
+    for (auto *element = this; element; element = element->nextSibling()) {
+        if (progress) {
+            progress->stopIfAborted();
+        }
+        // validate element itself by just parsing it
+        element->parse(diag);
+        // validate children
+        if (element->firstChild()) {
+            try {
+                element->firstChild()->validateSubsequentElementStructure(diag, paddingSize, progress);
+            } catch (const Failure &) {
+                // ignore critical errors in child structure to continue validating siblings
+                // (critical notifications about the errors should have already been added to diag, so nothing to do)
+            }
+        } else if (paddingSize && element->isPadding()) { // element is padding
+            *paddingSize += element->totalSize();
         }
-    } else if (paddingSize && isPadding()) { // element is padding
-        *paddingSize += totalSize();
-    }
-    // validate siblings
-    if (nextSibling()) {
-        nextSibling()->validateSubsequentElementStructure(diag, paddingSize, progress);
     }
 }
 
-- 
2.43.0


From 9e59ee75afde90e4294e96a31e583535dc72fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 110/156] fix: prevent stack overflow when dealing with deeply
 nested elements

---
 genericfileelement.h     | 13 ++++++++++++-
 matroska/ebmlelement.cpp |  5 ++++-
 mp4/mp4atom.cpp          |  6 +++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index 38b0f3b..ded8a91 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -118,6 +118,7 @@ public:
     static constexpr std::uint32_t maximumIdLengthSupported();
     static constexpr std::uint32_t maximumSizeLengthSupported();
     static constexpr std::uint8_t minimumElementSize();
+    static constexpr std::uint8_t maximumNestingLevel();
     template <typename TargetStream = std::ostream>
     void copyHeader(TargetStream &targetStream, Diagnostics &diag, AbortableProgressFeedback *progress);
     template <typename TargetStream = std::ostream>
@@ -999,7 +1000,7 @@ void GenericFileElement<ImplementationType>::copyInternal(
 template <class ImplementationType>
 ImplementationType *GenericFileElement<ImplementationType>::denoteFirstChild(std::uint32_t relativeFirstChildOffset)
 {
-    if (relativeFirstChildOffset + minimumElementSize() <= totalSize()) {
+    if (relativeFirstChildOffset + minimumElementSize() <= totalSize() && level() < maximumNestingLevel()) {
         m_firstChild.reset(new ImplementationType(static_cast<ImplementationType &>(*this), startOffset() + relativeFirstChildOffset));
     } else {
         m_firstChild.reset();
@@ -1007,6 +1008,16 @@ ImplementationType *GenericFileElement<ImplementationType>::denoteFirstChild(std
     return m_firstChild.get();
 }
 
+/*!
+ * \brief Returns the maximum nesting level supported by the class.
+ * \remarks Children of elements at this level are not considered (to avoid overflowing the stack when processing the elements
+ *          recursively).
+ */
+template <class ImplementationType> constexpr std::uint8_t GenericFileElement<ImplementationType>::maximumNestingLevel()
+{
+    return 128;
+}
+
 /*!
  * \brief Returns the maximum id length supported by the class in byte.
  */
diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index 5dd28da..b434a1b 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -190,7 +190,10 @@ void EbmlElement::internalParse(Diagnostics &diag)
 
         // check if there's a first child
         const std::uint64_t firstChildOffset = this->firstChildOffset();
-        if (firstChildOffset && firstChildOffset < totalSize()) {
+        if (firstChildOffset && firstChildOffset < totalSize() && level() >= maximumNestingLevel()) {
+            diag.emplace_back(DiagLevel::Warning, "The element is nested too deeply. Its children will be ignored.", parsingContext());
+            m_firstChild.reset();
+        } else if (firstChildOffset && firstChildOffset < totalSize()) {
             m_firstChild.reset(new EbmlElement(static_cast<EbmlElement &>(*this), startOffset() + firstChildOffset));
         } else {
             m_firstChild.reset();
diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 61e44de..d4de618 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -101,7 +101,11 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     m_dataSize -= headerSize();
     Mp4Atom *child = nullptr;
     if (std::uint64_t firstChildOffset = this->firstChildOffset()) {
-        if (firstChildOffset + minimumElementSize() <= totalSize()) {
+        if (firstChildOffset + minimumElementSize() > totalSize()) {
+            // atom has no children
+        } else if (level() >= maximumNestingLevel()) {
+            diag.emplace_back(DiagLevel::Warning, "The atom is nested too deeply. Its children will be ignored.", parsingContext());
+        } else {
             child = new Mp4Atom(static_cast<Mp4Atom &>(*this), startOffset() + firstChildOffset);
         }
     }
-- 
2.43.0


From 3a8f0b2620a64d0a80fe5f6c51e2286b435cfc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 111/156] fix: read tracks of Matroska chapters

---
 matroska/matroskachapter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskachapter.cpp b/matroska/matroskachapter.cpp
index d695f7a..ce76f28 100644
--- a/matroska/matroskachapter.cpp
+++ b/matroska/matroskachapter.cpp
@@ -76,12 +76,15 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
                 chapterTrackElement = chapterTrackElement->nextSibling()) {
                 chapterTrackElement->parse(diag);
                 switch (chapterTrackElement->id()) {
-                case MatroskaIds::ChapterTrack:
+                case EbmlIds::Crc32:
+                case EbmlIds::Void:
+                    break;
+                case MatroskaIds::ChapterTrackNumber:
                     m_tracks.emplace_back(chapterTrackElement->readUInteger());
                     break;
                 default:
                     diag.emplace_back(DiagLevel::Warning,
-                        "\"ChapterTrack\"-element contains unknown child element \"" % chapterAtomChild->idToString() + "\". It will be ignored.",
+                        "\"ChapterTrack\"-element contains unknown child element \"" % chapterTrackElement->idToString() + "\". It will be ignored.",
                         context);
                 }
             }
-- 
2.43.0


From a5e8aa96690cc22299f7eb4a55880824cc3f9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 112/156] fix: prevent warnings about "Void" and "CRC-32"
 elements within Matroska chapters

---
 matroska/matroskachapter.cpp      | 2 ++
 matroska/matroskaeditionentry.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/matroska/matroskachapter.cpp b/matroska/matroskachapter.cpp
index ce76f28..9a7f5c8 100644
--- a/matroska/matroskachapter.cpp
+++ b/matroska/matroskachapter.cpp
@@ -116,6 +116,8 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
             }
             break;
         case MatroskaIds::ChapProcess:
+        case EbmlIds::Crc32:
+        case EbmlIds::Void:
             break;
         case MatroskaIds::ChapterAtom:
             m_nestedChapters.emplace_back(make_unique<MatroskaChapter>(chapterAtomChild));
diff --git a/matroska/matroskaeditionentry.cpp b/matroska/matroskaeditionentry.cpp
index f758614..5f36644 100644
--- a/matroska/matroskaeditionentry.cpp
+++ b/matroska/matroskaeditionentry.cpp
@@ -79,6 +79,9 @@ void MatroskaEditionEntry::parse(Diagnostics &diag)
         case MatroskaIds::ChapterAtom:
             m_chapters.emplace_back(make_unique<MatroskaChapter>(entryChild));
             break;
+        case EbmlIds::Crc32:
+        case EbmlIds::Void:
+            break;
         default:
             diag.emplace_back(DiagLevel::Warning,
                 "\"EditionEntry\"-element contains unknown child element \"" % entryChild->idToString() + "\" which will be ignored.", context);
-- 
2.43.0


From eb699ecd144477cc471a8ebe90304de75808d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 113/156] fix: determine frame rate of Matroska tracks
 regardless of element order

---
 matroska/matroskatrack.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..00b14c4 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -296,6 +296,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     }
     // read information about the track from the children of the track entry element
     auto hasIsoLanguage = false;
+    auto defaultDuration = std::uint64_t();
     m_flags = TrackFlags::Default | TrackFlags::Enabled;
     for (EbmlElement *trackInfoElement = m_trackElement->firstChild(), *subElement = nullptr; trackInfoElement;
         trackInfoElement = trackInfoElement->nextSibling()) {
@@ -305,7 +306,6 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             diag.emplace_back(DiagLevel::Critical, "Unable to parse track information element.", context);
             break;
         }
-        std::uint64_t defaultDuration = 0;
         switch (trackInfoElement->id()) {
         case MatroskaIds::TrackType:
             switch (trackInfoElement->readUInteger()) {
@@ -444,14 +444,11 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             break;
         default:;
         }
-        switch (m_mediaType) {
-        case MediaType::Video:
-            if (!m_fps && defaultDuration) {
-                m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
-            }
-            break;
-        default:;
-        }
+    }
+
+    // compute frame rate from default duration if not specified explicitly
+    if (m_mediaType == MediaType::Video && !m_fps && defaultDuration) {
+        m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
     }
 
     // read further information from the CodecPrivate element for some codecs
-- 
2.43.0


From ff68a7123ea631e177852bcbc186fb37abcd98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 114/156] fix: avoid undefined behavior when reading absurd
 floating-point numbers from Matroska files

---
 matroska/matroskacontainer.cpp |  8 ++++++--
 matroska/matroskatrack.cpp     | 12 +++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 04e476b..5a63b18 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -641,8 +641,12 @@ void MatroskaContainer::parseSegmentInfo(Diagnostics &diag)
         if (!hasTitle) {
             m_titles.emplace_back();
         }
-        if (rawDuration > 0.0) {
-            m_duration += TimeSpan::fromSeconds(rawDuration * static_cast<double>(timeScale) / 1000000000.0);
+        if (const auto seconds = rawDuration * static_cast<double>(timeScale) / 1000000000.0; seconds > 0.0) {
+            // add duration avoiding an overflow in case it is absurd
+            constexpr auto maxSeconds = 900000000000.0;
+            const auto duration = TimeSpan::fromSeconds(std::min(seconds, maxSeconds));
+            const auto remaining = TimeSpan::fromSeconds(maxSeconds) - m_duration;
+            m_duration += std::min(duration, remaining);
         }
     }
 }
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 00b14c4..8a50b3c 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -246,6 +246,12 @@ template <typename NumberType, Traits::EnableIf<std::is_integral<NumberType>> *
     return stringToNumber<NumberType>(tagValue.toString(TagTextEncoding::Utf8));
 }
 
+/// \brief Converts the specified \a value to an unsigned integer; returns zero if the value cannot be represented.
+static std::uint32_t floatToUInt32(double value)
+{
+    return value > 0.0 && value < 4294967296.0 ? static_cast<std::uint32_t>(value) : 0u;
+}
+
 template <typename NumberType, Traits::EnableIf<std::is_floating_point<NumberType>> * = nullptr>
 NumberType tagValueToBitrate(const TagValue &tagValue)
 {
@@ -362,7 +368,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_cropping.setRight(static_cast<std::uint32_t>(subElement->readUInteger()));
                     break;
                 case MatroskaIds::FrameRate:
-                    m_fps = static_cast<std::uint32_t>(subElement->readFloat());
+                    m_fps = floatToUInt32(subElement->readFloat());
                     break;
                 case MatroskaIds::FlagInterlaced:
                     modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger());
@@ -391,12 +397,12 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     break;
                 case MatroskaIds::SamplingFrequency:
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_samplingFrequency = floatToUInt32(subElement->readFloat());
                     }
                     break;
                 case MatroskaIds::OutputSamplingFrequency:
                     if (!m_extensionSamplingFrequency) {
-                        m_extensionSamplingFrequency = static_cast<std::uint32_t>(subElement->readFloat());
+                        m_extensionSamplingFrequency = floatToUInt32(subElement->readFloat());
                     }
                     break;
                 default:;
-- 
2.43.0


From 8c314984d4190e86c878780569adcfba39f506de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 115/156] fix: assume lacing is allowed for Matroska tracks by
 default

---
 matroska/matroskatrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 8a50b3c..e9c2441 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -303,7 +303,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     // read information about the track from the children of the track entry element
     auto hasIsoLanguage = false;
     auto defaultDuration = std::uint64_t();
-    m_flags = TrackFlags::Default | TrackFlags::Enabled;
+    m_flags = TrackFlags::Default | TrackFlags::Enabled | TrackFlags::Lacing;
     for (EbmlElement *trackInfoElement = m_trackElement->firstChild(), *subElement = nullptr; trackInfoElement;
         trackInfoElement = trackInfoElement->nextSibling()) {
         try {
-- 
2.43.0


From b88b2e26127a248b8b9f846f991f37ed43fbd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 116/156] fix: warn about reserved sampling frequency indexes
 of AAC tracks in Matroska files

---
 matroska/matroskatrack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index e9c2441..57855a9 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -494,14 +494,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
-- 
2.43.0


From 43645ebbe6484c54d0921fa59d660aedea69bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:22 +0000
Subject: [PATCH 117/156] fix: read WAVE format header considering size of
 extended header

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..649ea4e 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -48,7 +48,7 @@ std::uint64_t WaveFormatHeader::parse(CppUtilities::BinaryReader &reader, std::u
     }
     const auto extensionSize = reader.readUInt16LE();
     bytesRead += 2;
-    if ((maxSize -= 2) < 2) {
+    if ((maxSize -= 2) < extensionSize) {
         diag.emplace_back(DiagLevel::Warning, "\"fmt \" segment is truncated (extended header truncated).", "parsing WAVE format header");
         return bytesRead;
     }
-- 
2.43.0


From f65930ef4e8b996fc108d7235af1d4e6dd0c12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:51 +0000
Subject: [PATCH 118/156] fix: prevent stack overflow when searching elements
 in files with many elements

---
 genericfileelement.h | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/genericfileelement.h b/genericfileelement.h
index ded8a91..9aacfa4 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -559,15 +559,13 @@ template <class ImplementationType>
 template <class IdType>
 ImplementationType *GenericFileElement<ImplementationType>::subelementByPath(Diagnostics &diag, IdType item)
 {
-    // ensure element is parsed
-    parse(diag);
-    // return the element if it matches the current and last item in the path
-    if (item == id()) {
-        return static_cast<ImplementationType *>(this);
-    }
-    // check whether a sibling matches the item
-    if (nextSibling()) {
-        return nextSibling()->subelementByPath(diag, item);
+    // return the element or the first sibling which matches the current and last item in the path
+    for (auto *element = static_cast<ImplementationType *>(this); element; element = element->nextSibling()) {
+        // ensure element is parsed
+        element->parse(diag);
+        if (item == element->id()) {
+            return element;
+        }
     }
     return nullptr;
 }
@@ -585,18 +583,13 @@ template <class ImplementationType>
 template <class IdType, class... IdTypes>
 ImplementationType *GenericFileElement<ImplementationType>::subelementByPath(Diagnostics &diag, IdType item, IdTypes... remainingPath)
 {
-    // ensure element is parsed
-    parse(diag);
-    // continue with next item in path if the element matches the current item
-    if (item == id()) {
-        if (!firstChild()) {
-            return nullptr;
+    // continue with next item in path if the element or one of its siblings matches the current item
+    for (auto *element = static_cast<ImplementationType *>(this); element; element = element->nextSibling()) {
+        // ensure element is parsed
+        element->parse(diag);
+        if (item == element->id()) {
+            return element->firstChild() ? element->firstChild()->subelementByPath(diag, remainingPath...) : nullptr;
         }
-        return firstChild()->subelementByPath(diag, remainingPath...);
-    }
-    // check whether a sibling matches the current item
-    if (nextSibling()) {
-        return nextSibling()->subelementByPath(diag, item, remainingPath...);
     }
     return nullptr;
 }
-- 
2.43.0


From daa6c9a2cd3b0eef35fd1bb61918e75f32db6ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:06 +0000
Subject: [PATCH 119/156] fix: consider video tracks of Matroska files only
 interlaced if denoted explicitly

---
 matroska/matroskatrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 57855a9..a8017a1 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -371,7 +371,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_fps = floatToUInt32(subElement->readFloat());
                     break;
                 case MatroskaIds::FlagInterlaced:
-                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger());
+                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger() == 1);
                     break;
                 case MatroskaIds::ColorSpace:
                     m_colorSpace = static_cast<std::uint32_t>(subElement->readUInteger());
-- 
2.43.0


From c98b90082e7c949120c3dc40754ab127b16c2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:23 +0000
Subject: [PATCH 120/156] fix: handle ID3v2 tag which denotes a size exceeding
 the file when determining the container format

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4dba336..88248d4 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -164,7 +164,7 @@ startParsingSignature:
         diag.emplace_back(DiagLevel::Information, "Parsing the container format has been aborted.", context);
         return;
     }
-    if (size() - containerOffset() >= 16) {
+    if (size() >= containerOffset() + 16) {
         stream().seekg(m_containerOffset, ios_base::beg);
         stream().read(buff, sizeof(buff));
 
-- 
2.43.0


From a707a443d9fb2a791d03942885d4980d32fdf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:23 +0000
Subject: [PATCH 121/156] fix: determine format of buffers smaller than 8 bytes

---
 signature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signature.cpp b/signature.cpp
index b4675ef..6aeb44d 100644
--- a/signature.cpp
+++ b/signature.cpp
@@ -118,10 +118,10 @@ ContainerFormat parseSignature(std::string_view buffer)
         sig = BE::toInt<std::uint64_t>(buffer.data());
     } else if (buffer.size() >= 4) {
         sig = BE::toInt<std::uint32_t>(buffer.data());
-        sig <<= 4;
+        sig <<= 32;
     } else if (buffer.size() >= 2) {
         sig = BE::toInt<std::uint16_t>(buffer.data());
-        sig <<= 6;
+        sig <<= 48;
     } else {
         return ContainerFormat::Unknown;
     }
-- 
2.43.0


From f6336b6e5c8ed966ac07048244aa6fb9c7eac5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 122/156] fix: avoid reading beyond bitrate table for MPEG
 audio frames with invalid bitrate index

---
 mpegaudio/mpegaudioframe.cpp | 2 +-
 mpegaudio/mpegaudioframe.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index df8a99d..33dcd46 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -35,7 +35,7 @@ std::string_view mpegChannelModeString(MpegChannelMode channelMode)
  * \brief The MpegAudioFrame class is used to parse MPEG audio frames.
  */
 
-const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0xF] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
+const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0x10] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
                                                                           { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 },
                                                                           { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 } },
     { { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 },
diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..34ff7f8 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -65,7 +65,7 @@ public:
 private:
     static constexpr std::uint64_t s_xingHeaderOffset = 0x24;
     static constexpr std::uint32_t s_sync = 0xFFE00000u;
-    static const std::uint16_t s_bitrateTable[0x2][0x3][0xF];
+    static const std::uint16_t s_bitrateTable[0x2][0x3][0x10];
     std::uint32_t m_header;
     std::uint64_t m_xingHeader;
     XingHeaderFlags m_xingHeaderFlags;
-- 
2.43.0


From 744cf93effed1650eb5d8e09fcbd371ae1338843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 123/156] fix: compute size of MPEG audio frames correctly

---
 mpegaudio/mpegaudioframe.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index 33dcd46..d976406 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -207,17 +207,16 @@ std::uint32_t MpegAudioFrame::sampleCount() const
  */
 std::uint32_t MpegAudioFrame::size() const
 {
+    const auto bytesPerSecond = static_cast<std::uint32_t>(bitrate()) * 125u, frequency = samplingFrequency();
+    if (!bytesPerSecond || !frequency) {
+        return 0;
+    }
     switch (m_header & 0x60000u) {
-    case 0x60000u: // layer 1
-        return static_cast<std::uint32_t>(
-                   ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-                   + static_cast<double>(paddingSize()))
-            * 4;
+    case 0x60000u: // layer 1 (consists of slots of 4 bytes)
+        return bytesPerSecond * (sampleCount() / 4u) / frequency * 4u + paddingSize();
     case 0x40000u: // layer 2
     case 0x20000u: // layer 3
-        return static_cast<std::uint32_t>(
-            ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-            + static_cast<double>(paddingSize()));
+        return bytesPerSecond * sampleCount() / frequency + paddingSize();
     default:
         return 0;
     }
-- 
2.43.0


From da2425d306fdb16484753ecd60052f994b67cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 124/156] fix: avoid taking arbitrary data of MPEG audio frames
 for a Xing header

---
 mpegaudio/mpegaudioframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 34ff7f8..2bad6a1 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -158,7 +158,7 @@ constexpr XingHeaderFlags operator&(XingHeaderFlags lhs, XingHeaderFlags rhs)
  */
 constexpr bool MpegAudioFrame::isXingHeaderAvailable() const
 {
-    return ((m_xingHeader & 0x58696e6700000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0x496e666f00000000uL) == 0x496e666f00000000uL);
+    return (m_xingHeader >> 32) == 0x58696e67u || (m_xingHeader >> 32) == 0x496e666fu;
 }
 
 /*!
-- 
2.43.0


From 8960a7380559f6fe77adc69a8ca78f5a8af1601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 125/156] fix: consider MPEG version and channel mode when
 looking for the Xing header

---
 mpegaudio/mpegaudioframe.cpp | 18 ++++++++++++++++--
 mpegaudio/mpegaudioframe.h   |  2 +-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index d976406..e79e691 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -60,10 +60,11 @@ void MpegAudioFrame::parseHeader(BinaryReader &reader, Diagnostics &diag)
     }
 
     // read XING header (see https://www.codeproject.com/Articles/8295/MPEG-Audio-Frame-Header#XINGHeader)
-    if (size() < s_xingHeaderOffset - 4 + 8) {
+    const auto xingOffset = xingHeaderOffset();
+    if (size() < xingOffset - 4 + 8) {
         return;
     }
-    reader.stream()->seekg(s_xingHeaderOffset - 4, ios_base::cur);
+    reader.stream()->seekg(xingOffset - 4, ios_base::cur);
     m_xingHeader = reader.readUInt64BE();
     if (isXingHeaderAvailable()) {
         m_xingHeaderFlags = static_cast<XingHeaderFlags>(m_xingHeader & 0xffffffffuL);
@@ -222,4 +223,17 @@ std::uint32_t MpegAudioFrame::size() const
     }
 }
 
+/*!
+ * \brief Returns the offset of the Xing header (if there is one) from the beginning of the frame.
+ * \remarks The Xing header is located after the side information which has a different size depending on the MPEG version and the channel mode.
+ */
+std::uint32_t MpegAudioFrame::xingHeaderOffset() const
+{
+    const auto isMono = (m_header & 0xc0u) == 0xc0u;
+    if ((m_header & 0x180000u) == 0x180000u) {
+        return isMono ? 0x15u : 0x24u; // MPEG 1
+    }
+    return isMono ? 0xDu : 0x15u; // MPEG 2 and 2.5
+}
+
 } // namespace TagParser
diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 2bad6a1..3b3785d 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -63,7 +63,7 @@ public:
     constexpr std::uint32_t xingQualityIndicator() const;
 
 private:
-    static constexpr std::uint64_t s_xingHeaderOffset = 0x24;
+    std::uint32_t xingHeaderOffset() const;
     static constexpr std::uint32_t s_sync = 0xFFE00000u;
     static const std::uint16_t s_bitrateTable[0x2][0x3][0x10];
     std::uint32_t m_header;
-- 
2.43.0


From 4014f2965d276f7a1592e29bcc769b6d16c162b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 126/156] fix: avoid computing duration and bitrate of MPEG
 audio files from missing or overflowing values

---
 mpegaudio/mpegaudioframestream.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 32d05ba..0d967cb 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -79,12 +79,17 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
         }
     }
     if (frame.isXingFramefieldPresent()) {
-        const auto duration = static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
-        m_bitrate = static_cast<double>(m_size) / duration / 125.0;
-        m_duration = TimeSpan::fromSeconds(duration);
-    } else {
-        m_bitrate = frame.bitrate();
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
+        const auto sampleCount = static_cast<std::uint64_t>(frame.xingFrameCount()) * frame.sampleCount();
+        if (sampleCount && frame.samplingFrequency()) {
+            const auto duration = static_cast<double>(sampleCount) / static_cast<double>(frame.samplingFrequency());
+            m_bitrate = static_cast<double>(m_size) / duration / 125.0;
+            m_duration = TimeSpan::fromSeconds(duration);
+            return;
+        }
+    }
+    m_bitrate = frame.bitrate();
+    if ((m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125))) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / m_bytesPerSecond);
     }
 }
 
-- 
2.43.0


From 28dc850733417976cd2cc7dffaebcb42a2cee443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 127/156] fix: consider all bits of the size of ADTS frames

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 53ad236..88fce67 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -102,7 +102,7 @@ constexpr std::uint8_t AdtsFrame::mpeg4ChannelConfig() const
  */
 constexpr std::uint16_t AdtsFrame::totalSize() const
 {
-    return static_cast<std::uint8_t>((m_header2 >> 0x1D) & 0x1FFFu);
+    return static_cast<std::uint16_t>((m_header2 >> 0x1D) & 0x1FFFu);
 }
 
 /*!
-- 
2.43.0


From 79fa9cf522b504ac8e79173da793f8c7c43862c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 128/156] fix: avoid reading beyond sampling frequency table
 when parsing ADTS header

---
 adts/adtsstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..0b82e1d 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -4,6 +4,7 @@
 
 #include "../exceptions.h"
 
+#include <iterator>
 #include <string>
 
 using namespace std;
@@ -30,7 +31,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < std::size(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
-- 
2.43.0


From 59954a281805690d03162bb28630066c57e33270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:03 +0000
Subject: [PATCH 129/156] fix: consider numerator of time base when computing
 duration and frame rate of IVF files

---
 ivf/ivfstream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 05a272f..4c0f1f0 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -7,6 +7,7 @@
 #include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/conversion/stringconversion.h>
 
+#include <algorithm>
 #include <string>
 
 using namespace std;
@@ -46,13 +47,17 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     m_formatId = interpretIntegerAsString(formatId);
     m_pixelSize.setWidth(m_reader.readUInt16LE());
     m_pixelSize.setHeight(m_reader.readUInt16LE());
-    m_fps = m_reader.readUInt32LE();
+    const auto rate = m_reader.readUInt32LE();
     m_timeScale = m_reader.readUInt32LE();
     m_sampleCount = m_reader.readUInt32LE();
 
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_fps);
+    m_fps = m_timeScale ? rate / m_timeScale : 0;
+    if (rate) {
+        constexpr auto maxSeconds = 900000000000.0; // avoid exceeding the range of TimeSpan
+        m_duration = TimeSpan::fromSeconds(std::min(static_cast<double>(m_sampleCount) * static_cast<double>(m_timeScale) / rate, maxSeconds));
+    }
 
     // skip unused bytes
     m_istream->seekg(4, ios_base::cur);
-- 
2.43.0


From 118dd7693a75f1e0db8d140a68c5306df3330562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 130/156] fix: avoid division by zero when parsing WAVE files

---
 wav/waveaudiostream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 649ea4e..8804e81 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -172,8 +172,12 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
             m_size = restHeaderLen;
-            m_sampleCount = m_size / m_chunkSize;
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            if (m_chunkSize) {
+                m_sampleCount = m_size / m_chunkSize;
+            }
+            if (m_samplingFrequency) {
+                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            }
             break;
         default:;
         }
-- 
2.43.0


From d94365c5675e1011b37d34e2a1c2bb707ed31bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 131/156] fix: consider padding of odd-sized segments when
 parsing WAVE files

---
 wav/waveaudiostream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 8804e81..13081b3 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -161,17 +161,18 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     }
     while (!m_dataOffset) {
         const auto segmentId = m_reader.readUInt32BE();
-        auto restHeaderLen = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        const auto segmentSize = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        auto restHeaderLen = segmentSize + (segmentSize & 1u); // segments are padded to an even size
         switch (segmentId) {
         case 0x666D7420u: { // format segment
             WaveFormatHeader waveHeader;
-            const auto bytesRead = waveHeader.parse(m_reader, restHeaderLen, diag);
+            const auto bytesRead = waveHeader.parse(m_reader, segmentSize, diag);
             addInfo(waveHeader, *this);
             restHeaderLen -= bytesRead;
         } break;
         case 0x64617461u: // data segment
             m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
-            m_size = restHeaderLen;
+            m_size = segmentSize;
             if (m_chunkSize) {
                 m_sampleCount = m_size / m_chunkSize;
             }
-- 
2.43.0


From 0c5c574548e293b94d8dbf7bf150222d18fe9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 132/156] fix: set bitrate of WAVE tracks in kbit/s

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 13081b3..38f0d74 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -141,7 +141,7 @@ void WaveAudioStream::addInfo(const WaveFormatHeader &waveHeader, AbstractTrack
     track.m_bytesPerSecond = waveHeader.bytesPerSecond;
     track.m_chunkSize = waveHeader.chunkSize;
     track.m_bitsPerSample = waveHeader.bitsPerSample;
-    track.m_bitrate = waveHeader.bitrate();
+    track.m_bitrate = static_cast<double>(waveHeader.bitsPerSample) * waveHeader.sampleRate * waveHeader.channelCount / 1000.0;
 }
 
 void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
-- 
2.43.0


From 573d4960169faea0aa39fbe248d5c47dad27ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 133/156] fix: compute duration and bitrate of WAVE files
 containing MPEG audio consistently

---
 wav/waveaudiostream.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38f0d74..48e365c 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -191,12 +191,17 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     MpegAudioFrame frame;
     frame.parseHeader(m_reader, diag);
     MpegAudioFrameStream::addInfo(frame, *this);
-    m_bitrate = frame.isXingFramefieldPresent()
-        ? ((static_cast<double>(m_size) * 8.0)
-              / (static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
-        : frame.bitrate();
+    const auto sampleCount
+        = frame.isXingFramefieldPresent() ? static_cast<std::uint64_t>(frame.xingFrameCount()) * frame.sampleCount() : static_cast<std::uint64_t>(0u);
+    m_duration = TimeSpan();
+    if (sampleCount && frame.samplingFrequency()) {
+        const auto duration = static_cast<double>(sampleCount) / static_cast<double>(frame.samplingFrequency());
+        m_bitrate = static_cast<double>(m_size) / duration / 125.0;
+        m_duration = TimeSpan::fromSeconds(duration);
+    } else if ((m_bitrate = frame.bitrate()) != 0.0) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
+    }
     m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
 }
 
 } // namespace TagParser
-- 
2.43.0


From 570b347aec0ab19807f03f261b5b3ec822916ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 134/156] fix: read NAL unit type of PPS from correct bits

---
 avc/avcinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 6adac0f..73b512d 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -232,7 +232,7 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
 
     try {
         // read general values
-        bitReader.skipBits(1); // zero bit
+        bitReader.skipBits(3); // zero bit and reference indicator
         if (bitReader.readBits<std::uint8_t>(5) != 8) { // nal unit type
             throw NotImplementedException();
         }
-- 
2.43.0


From 2a02a2b5f6d7412bf69bef5a02e6041d7811ef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 135/156] fix: consider all bits of the number of SPS entries
 in AVC configuration

---
 avc/avcconfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avc/avcconfiguration.cpp b/avc/avcconfiguration.cpp
index 8b25fab..0f4808b 100644
--- a/avc/avcconfiguration.cpp
+++ b/avc/avcconfiguration.cpp
@@ -36,7 +36,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
     naluSizeLength = (reader.readByte() & 0x03) + 1;
 
     // read SPS info entries
-    std::uint8_t spsEntryCount = reader.readByte() & 0x0f;
+    std::uint8_t spsEntryCount = reader.readByte() & 0x1f;
     std::uint8_t ignoredSpsEntries = 0;
     spsInfos.reserve(spsEntryCount);
     for (; spsEntryCount; --spsEntryCount) {
-- 
2.43.0


From 562eac96779635a0d014faada4a0577a5d5f7a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 136/156] fix: consider size fields of SPS and PPS entries when
 checking the size of AVC configuration

---
 avc/avcconfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/avc/avcconfiguration.cpp b/avc/avcconfiguration.cpp
index 0f4808b..0588aae 100644
--- a/avc/avcconfiguration.cpp
+++ b/avc/avcconfiguration.cpp
@@ -55,7 +55,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
         } catch (const Failure &) {
             error = true;
         }
-        maxSize -= spsInfos.back().size;
+        maxSize -= SpsInfo::minSize + static_cast<std::uint64_t>(spsInfos.back().size);
         if (error) {
             spsInfos.pop_back();
             ++ignoredSpsEntries;
@@ -82,7 +82,7 @@ void AvcConfiguration::parse(BinaryReader &reader, std::uint64_t maxSize, Diagno
         } catch (const Failure &) {
             error = true;
         }
-        maxSize -= ppsInfos.back().size;
+        maxSize -= PpsInfo::minSize + static_cast<std::uint64_t>(ppsInfos.back().size);
         if (error) {
             ppsInfos.pop_back();
             ++ignoredPpsEntries;
-- 
2.43.0


From b3c467af93c130a94a57161027a8941a3761d721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 137/156] fix: skip scaling lists of SPS entries according to
 specification

---
 avc/avcinfo.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index 73b512d..c7eb5f0 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -13,6 +13,18 @@ using namespace CppUtilities;
 
 namespace TagParser {
 
+/// \cond
+static void skipScalingList(BitReader &bitReader, std::uint8_t size)
+{
+    for (std::uint8_t i = 0, lastScale = 8, nextScale = 8; i < size && nextScale; ++i) {
+        nextScale = static_cast<std::uint8_t>(lastScale + static_cast<ugolomb>(bitReader.readSignedExpGolombCodedBits<sgolomb>()));
+        if (nextScale) {
+            lastScale = nextScale;
+        }
+    }
+}
+/// \endcond
+
 /*!
  * \struct TagParser::SpsInfo
  * \brief The SpsInfo struct holds the sequence parameter set.
@@ -63,14 +75,10 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
             bitReader.readUnsignedExpGolombCodedBits<std::uint8_t>(); // bit depth chroma minus8
             bitReader.skipBits(1); // qpprime y zero transform bypass flag
             if (bitReader.readBit()) { // sequence scaling matrix present flag
-                for (std::uint8_t i = 0; i < 8; ++i) {
+                for (std::uint8_t i = 0, listCount = chromaFormatIndication == 3 ? 12 : 8; i < listCount; ++i) {
                     // TODO: store values
                     if (bitReader.readBit()) { // sequence scaling list present
-                        if (i < 6) {
-                            bitReader.skipBits(16); // scalingList4x4[i]
-                        } else {
-                            bitReader.skipBits(64); // scalingList8x8[i - 6]
-                        }
+                        skipScalingList(bitReader, i < 6 ? 16 : 64); // scalingList4x4[i] or scalingList8x8[i - 6]
                     }
                 }
             }
-- 
2.43.0


From ff5570e14d0f677a0abd0cf2cd712ce64454b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 138/156] fix: avoid reading beyond buffer when parsing empty
 SPS and PPS entries

---
 avc/avcinfo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index c7eb5f0..a838d63 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -41,6 +41,9 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     }
 
     // buffer data for reading with BitReader
+    if (!size) {
+        throw TruncatedDataException();
+    }
     auto buffer = make_unique<char[]>(size);
     reader.read(buffer.get(), size);
     BitReader bitReader(buffer.get(), size);
@@ -234,6 +237,9 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     }
 
     // buffer data for reading with BitReader
+    if (!size) {
+        throw TruncatedDataException();
+    }
     auto buffer = make_unique<char[]>(size);
     reader.read(buffer.get(), size);
     BitReader bitReader(buffer.get(), size);
-- 
2.43.0


From ca13da1286c563168c730f3bbb5fa923c4fe13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:10 +0000
Subject: [PATCH 139/156] fix: remove emulation prevention bytes when parsing
 SPS and PPS entries

---
 avc/avcinfo.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/avc/avcinfo.cpp b/avc/avcinfo.cpp
index a838d63..4aa4d61 100644
--- a/avc/avcinfo.cpp
+++ b/avc/avcinfo.cpp
@@ -5,6 +5,7 @@
 #include <c++utilities/io/binaryreader.h>
 #include <c++utilities/io/bitreader.h>
 
+#include <algorithm>
 #include <memory>
 #include <unordered_map>
 
@@ -23,6 +24,25 @@ static void skipScalingList(BitReader &bitReader, std::uint8_t size)
         }
     }
 }
+
+/*!
+ * \brief Removes emulation prevention bytes (see ISO/IEC 14496-10, 7.3.1) from the specified \a buffer in-place.
+ * \returns Returns the number of remaining bytes.
+ */
+static std::size_t removeEmulationPrevention(char *buffer, std::size_t size)
+{
+    auto newSize = std::size_t();
+    auto zeroBytes = std::uint8_t();
+    for (std::size_t i = 0; i != size; ++i) {
+        if (zeroBytes >= 2 && buffer[i] == 3) {
+            zeroBytes = 0;
+            continue;
+        }
+        zeroBytes = buffer[i] ? 0 : static_cast<std::uint8_t>(std::min(zeroBytes + 1, 2));
+        buffer[newSize++] = buffer[i];
+    }
+    return newSize;
+}
 /// \endcond
 
 /*!
@@ -46,7 +66,7 @@ void SpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     }
     auto buffer = make_unique<char[]>(size);
     reader.read(buffer.get(), size);
-    BitReader bitReader(buffer.get(), size);
+    BitReader bitReader(buffer.get(), removeEmulationPrevention(buffer.get(), size));
 
     try {
         // read general values
@@ -242,7 +262,7 @@ void PpsInfo::parse(BinaryReader &reader, std::uint32_t maxSize)
     }
     auto buffer = make_unique<char[]>(size);
     reader.read(buffer.get(), size);
-    BitReader bitReader(buffer.get(), size);
+    BitReader bitReader(buffer.get(), removeEmulationPrevention(buffer.get(), size));
 
     try {
         // read general values
-- 
2.43.0


From 01aba5ac9f6f4bb84288682751b5e73a3faf9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:04 +0000
Subject: [PATCH 140/156] fix: return MPEG version of ADTS frames correctly

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 88fce67..61fef79 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -57,7 +57,7 @@ constexpr bool AdtsFrame::isValid() const
  */
 constexpr bool AdtsFrame::isMpeg4() const
 {
-    return m_header1 & 0x8u;
+    return (m_header1 & 0x8u) == 0;
 }
 
 /*!
-- 
2.43.0


From 2ac96514aa436c1de587b4ade7856a5e8ce1d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:49 +0000
Subject: [PATCH 141/156] fix: avoid underflow of effective size when tags
 overlap or exceed the file

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 88248d4..dac9fbc 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -473,7 +473,7 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
     }
 
     // compute effective size
-    m_effectiveSize = static_cast<std::uint64_t>(effectiveSize - m_containerOffset);
+    m_effectiveSize = effectiveSize > m_containerOffset ? static_cast<std::uint64_t>(effectiveSize - m_containerOffset) : 0u;
 
     // check for tags in tracks (FLAC only) or via container object
     try {
-- 
2.43.0


From 16fb6d556afbbebdcaf5b45fb269cff231da9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:41 +0000
Subject: [PATCH 142/156] fix: avoid mistaking short buffers for UTF-32 text or
 AIFF

---
 signature.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/signature.cpp b/signature.cpp
index 6aeb44d..a8af5a5 100644
--- a/signature.cpp
+++ b/signature.cpp
@@ -169,7 +169,10 @@ ContainerFormat parseSignature(std::string_view buffer)
     }
     switch (sig >> 24) { // check 40-bit signatures
     case Aiff:
-        return ContainerFormat::Aiff;
+        if (buffer.size() >= 8) {
+            return ContainerFormat::Aiff;
+        }
+        break;
     default:;
     }
     switch (sig >> 32) { // check 32-bit signatures
@@ -206,7 +209,10 @@ ContainerFormat parseSignature(std::string_view buffer)
     case TiffLittleEndian:
         return ContainerFormat::TiffLittleEndian;
     case Utf32Text:
-        return ContainerFormat::Utf32Text;
+        if (buffer.size() >= 4) {
+            return ContainerFormat::Utf32Text;
+        }
+        break;
     case WavPack:
         return ContainerFormat::WavPack;
     case WindowsIcon:
-- 
2.43.0


From 56c0c6d62308d6acc77f9c7e6cb63537a4ad1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:42 +0000
Subject: [PATCH 143/156] fix: write genre index in the encoding of the ID3v2
 frame

When assigning a standard genre index in addition to further genres as UTF-16
the index was written as Latin-1 text.
---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index c681a64..ffd5002 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -679,7 +679,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
                     if ((value->type() == TagDataType::StandardGenreIndex)
                         && ((version >= 3 && m_frameId == Id3v2FrameIds::lGenre) || (version < 3 && m_frameId == Id3v2FrameIds::sGenre))) {
                         // make standard genere index
-                        substrings.emplace_back(numberToString(value->toStandardGenreIndex()));
+                        substrings.emplace_back(TagValue(numberToString(value->toStandardGenreIndex()), TagTextEncoding::Latin1).toString(encoding));
 
                     } else {
                         // make other text frame
-- 
2.43.0


From 44b61f82575ecd1f26238e1b741131e2547c6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:42 +0000
Subject: [PATCH 144/156] fix: allow reading small compressed ID3v2 frames

Compressing little data makes it bigger so frames written by the library itself
could not be read back. Check the maximum size before allocating the buffer.
---
 id3/id3v2frame.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index ffd5002..a6adb8d 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -240,8 +240,8 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
     // -> decompress data if compressed; otherwise just read it
     if (isCompressed()) {
         uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        if (decompressedSize < m_dataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
+        if (decompressedSize > maxId3v2FrameDataSize) {
+            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
             throw InvalidDataException();
         }
         const auto bufferCompressed = make_unique<char[]>(m_dataSize);
@@ -264,10 +264,6 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "Decompressing failed (unknown reason).", context);
             throw InvalidDataException();
         }
-        if (decompressedSize > maxId3v2FrameDataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
-            throw InvalidDataException();
-        }
         m_dataSize = static_cast<std::uint32_t>(decompressedSize);
     } else {
         buffer = make_unique<char[]>(m_dataSize);
-- 
2.43.0


From b80fe7710aa1c382aa3cc5f184830c66d8371c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:42 +0000
Subject: [PATCH 145/156] fix: interpret flags of ID3v2 frames according to the
 version

The flags have a different meaning as of ID3v2.4.0 and additional header fields
(group, decompressed size) are part of the frame size and ordered differently.
Frames using them were read beyond their end and written with a wrong size, data
length indicators were considered part of the data and flags got another meaning
when writing a frame using another version.
---
 id3/id3v2frame.cpp | 64 +++++++++++++++++++++++++++++++++++++---------
 id3/id3v2frame.h   |  6 ++---
 2 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index a6adb8d..a118224 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -156,8 +156,10 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 {
     static const string defaultContext("parsing ID3v2 frame");
     string context;
+    uLongf decompressedSize = 0;
 
     // parse header
+    m_parsedVersion = version; // the meaning of the flags depends on it
     if (version < 3) {
         // parse header for ID3v2.1 and ID3v2.2
         // -> read ID
@@ -209,14 +211,35 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         }
         m_totalSize = m_dataSize + 10;
 
-        // -> read flags and group
+        // -> read flags
         m_flag = reader.readUInt16BE();
-        m_group = hasGroupInformation() ? reader.readByte() : 0;
+        m_group = 0;
         if (isEncrypted()) {
             // encryption is not implemented
             diag.emplace_back(DiagLevel::Critical, "Encrypted frames aren't supported.", context);
             throw VersionNotSupportedException();
         }
+        if (isCompressed() && !hasDataLengthIndicator()) {
+            diag.emplace_back(DiagLevel::Critical, "The frame is compressed but its decompressed size is not denoted.", context);
+            throw InvalidDataException();
+        }
+
+        // -> read additional header fields (which are included in the data size)
+        const auto additionalSize = (hasGroupInformation() ? 1u : 0u) + (hasDataLengthIndicator() ? 4u : 0u);
+        if (m_dataSize < additionalSize) {
+            diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
+            throw TruncatedDataException();
+        }
+        m_dataSize -= additionalSize;
+        if (version >= 4 && hasGroupInformation()) {
+            m_group = reader.readByte();
+        }
+        if (hasDataLengthIndicator()) {
+            decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
+        }
+        if (version < 4 && hasGroupInformation()) {
+            m_group = reader.readByte();
+        }
     }
 
     // add a warning if a frame appears in an ID3v2 tag known not to support it
@@ -239,7 +262,6 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
     // -> decompress data if compressed; otherwise just read it
     if (isCompressed()) {
-        uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
         if (decompressedSize > maxId3v2FrameDataSize) {
             diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
             throw InvalidDataException();
@@ -502,6 +524,18 @@ static void writePlayCounter(char *last, std::uint32_t playCounterSize, std::uin
  * \sa See Id3v2FrameMaker::prepareMaking() for more information.
  */
 
+/*!
+ * \brief Returns the flags of the specified \a frame in the form used by the specified \a version.
+ */
+static std::uint16_t makeFlags(const Id3v2Frame &frame, std::uint8_t version)
+{
+    const auto flags = (frame.toDiscardWhenUnknownAndTagIsAltered() ? 0x8000u : 0u) | (frame.toDiscardWhenUnknownAndFileIsAltered() ? 0x4000u : 0u)
+        | (frame.isReadOnly() ? 0x2000u : 0u);
+    return static_cast<std::uint16_t>(version >= 4
+            ? ((flags >> 1) | (frame.hasGroupInformation() ? 0x40u : 0u) | (frame.isCompressed() ? 0x9u : 0u))
+            : (flags | (frame.isCompressed() ? 0x80u : 0u) | (frame.hasGroupInformation() ? 0x20u : 0u)));
+}
+
 /*!
  * \brief Prepares making the specified \a frame.
  * \sa See Id3v2Frame::prepareMaking() for more information.
@@ -840,21 +874,27 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
         writer.writeUInt24BE(m_dataSize);
     } else {
         writer.writeUInt32BE(m_frameId);
+        // note: The size includes additional header fields.
         if (m_version >= 4) {
-            writer.writeSynchsafeUInt32BE(m_dataSize);
+            writer.writeSynchsafeUInt32BE(m_requiredSize - 10);
         } else {
-            writer.writeUInt32BE(m_dataSize);
+            writer.writeUInt32BE(m_requiredSize - 10);
         }
-        writer.writeUInt16BE(m_frame.flag());
-        if (m_frame.hasGroupInformation()) {
-            writer.writeByte(m_frame.group());
-        }
-        if (m_version >= 3 && m_frame.isCompressed()) {
-            if (m_version >= 4) {
+        writer.writeUInt16BE(makeFlags(m_frame, m_version));
+        if (m_version >= 4) {
+            if (m_frame.hasGroupInformation()) {
+                writer.writeByte(m_frame.group());
+            }
+            if (m_frame.isCompressed()) {
                 writer.writeSynchsafeUInt32BE(m_decompressedSize);
-            } else {
+            }
+        } else {
+            if (m_frame.isCompressed()) {
                 writer.writeUInt32BE(m_decompressedSize);
             }
+            if (m_frame.hasGroupInformation()) {
+                writer.writeByte(m_frame.group());
+            }
         }
     }
     writer.write(m_data.get(), m_dataSize);
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 27799aa..178e567 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -236,7 +236,7 @@ inline std::uint32_t Id3v2Frame::dataSize() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
 {
-    return m_flag & 0x8000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x4000 : 0x8000);
 }
 
 /*!
@@ -244,7 +244,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
 {
-    return m_flag & 0x4000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x2000 : 0x4000);
 }
 
 /*!
@@ -252,7 +252,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
  */
 inline bool Id3v2Frame::isReadOnly() const
 {
-    return m_flag & 0x2000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x1000 : 0x2000);
 }
 
 /*!
-- 
2.43.0


From f2a034b59baeddcb29a3e6f6605e6fd725d31219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:02 +0000
Subject: [PATCH 146/156] fix: revert unsynchronisation of ID3v2.4 frames when
 reading

---
 id3/id3v2frame.cpp | 41 +++++++++++++++++++++++++++++------------
 id3/id3v2frame.h   |  2 ++
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index a118224..39c70ac 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -142,6 +142,22 @@ static std::uint64_t readPlayCounter(const char *begin, const char *end, const s
     return res;
 }
 
+/*!
+ * \brief Reverts the unsynchronisation scheme applied on the specified \a data by removing the zero byte after each 0xFF byte.
+ * \returns Returns the size of the resulting data.
+ */
+std::size_t Id3v2Frame::removeUnsynchronisation(char *data, std::size_t size)
+{
+    auto newSize = std::size_t();
+    for (auto i = std::size_t(); i < size; ++i) {
+        const auto byte = data[newSize++] = data[i];
+        if (static_cast<unsigned char>(byte) == 0xFFu && i + 1 < size && !data[i + 1]) {
+            ++i;
+        }
+    }
+    return newSize;
+}
+
 /*!
  * \brief Parses a frame from the stream read using the specified \a reader.
  *
@@ -251,23 +267,21 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             argsToString("The frame is only supported in ID3v2.3 and older but the tag's version is ID3v2.", version, '.'), context);
     }
 
-    // frame size mustn't be 0
-    if (m_dataSize <= 0) {
-        diag.emplace_back(DiagLevel::Warning, "The frame size is 0.", context);
-        throw InvalidDataException();
-    }
-
     // parse the data
     unique_ptr<char[]> buffer;
 
-    // -> decompress data if compressed; otherwise just read it
+    // -> read data, remove unsynchronisation and decompress data if compressed
+    buffer = make_unique<char[]>(m_dataSize);
+    reader.read(buffer.get(), m_dataSize);
+    if (isUnsynchronized()) {
+        m_dataSize = static_cast<std::uint32_t>(removeUnsynchronisation(buffer.get(), m_dataSize));
+    }
     if (isCompressed()) {
         if (decompressedSize > maxId3v2FrameDataSize) {
             diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
             throw InvalidDataException();
         }
-        const auto bufferCompressed = make_unique<char[]>(m_dataSize);
-        reader.read(bufferCompressed.get(), m_dataSize);
+        const auto bufferCompressed = std::move(buffer);
         buffer = make_unique<char[]>(decompressedSize);
         switch (
             uncompress(reinterpret_cast<Bytef *>(buffer.get()), &decompressedSize, reinterpret_cast<Bytef *>(bufferCompressed.get()), m_dataSize)) {
@@ -287,9 +301,12 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             throw InvalidDataException();
         }
         m_dataSize = static_cast<std::uint32_t>(decompressedSize);
-    } else {
-        buffer = make_unique<char[]>(m_dataSize);
-        reader.read(buffer.get(), m_dataSize);
+    }
+
+    // frame size mustn't be 0
+    if (m_dataSize <= 0) {
+        diag.emplace_back(DiagLevel::Warning, "The frame size is 0.", context);
+        throw InvalidDataException();
     }
 
     const auto isTextFrame = Id3v2FrameIds::isTextFrame(id());
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 178e567..d5d1210 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -86,6 +86,7 @@ public:
 class TAG_PARSER_EXPORT Id3v2Frame : public TagField<Id3v2Frame> {
     friend class TagField<Id3v2Frame>;
     friend class Id3v2FrameMaker;
+    friend class Id3v2Tag;
 
 public:
     Id3v2Frame();
@@ -144,6 +145,7 @@ public:
     static std::string fieldIdToString(IdentifierType id);
 
 private:
+    static std::size_t removeUnsynchronisation(char *data, std::size_t size);
     void internallyClearValue();
     void internallyClearFurtherData();
     std::string ignoreAdditionalValuesDiagMsg() const;
-- 
2.43.0


From 4fd1f9493495088327c19277c3716fb0eaf7c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:02 +0000
Subject: [PATCH 147/156] fix: revert unsynchronisation of ID3v2.2 and ID3v2.3
 tags when reading

---
 id3/id3v2tag.cpp | 49 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index c61e5e8..1271109 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -9,6 +9,7 @@
 #include <c++utilities/conversion/stringconversion.h>
 
 #include <iostream>
+#include <sstream>
 
 using namespace std;
 using namespace CppUtilities;
@@ -587,9 +588,31 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
         throw VersionNotSupportedException();
     }
 
+    // revert unsynchronisation (since v2.4.0 it is applied on frame level instead)
+    auto sizeExcludingHeader = m_sizeExcludingHeader;
+    auto maximalDataSize = maximalSize;
+    auto endOffset = startOffset + m_size;
+    std::stringstream synchronizedData;
+    if (isUnsynchronisationUsed() && majorVersion < 4) {
+        if (maximalSize && maximalSize - 10 < sizeExcludingHeader) {
+            sizeExcludingHeader = static_cast<std::uint32_t>(maximalSize - 10);
+            diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
+        }
+        auto data = std::string(sizeExcludingHeader, '\0');
+        reader.read(data.data(), static_cast<std::streamsize>(data.size()));
+        data.resize(Id3v2Frame::removeUnsynchronisation(data.data(), data.size()));
+        sizeExcludingHeader = static_cast<std::uint32_t>(data.size());
+        maximalDataSize = endOffset = 10u + data.size();
+        synchronizedData.exceptions(stream.exceptions());
+        synchronizedData.str(std::string(10, '\0') + data); // include a placeholder for the header so offsets stay the same
+        synchronizedData.seekg(10);
+        reader.setStream(&synchronizedData);
+    }
+    auto &dataStream = *reader.stream();
+
     // read extended header (if present)
     if (hasExtendedHeader()) {
-        if (maximalSize && maximalSize < 14) {
+        if (maximalDataSize && maximalDataSize < 14) {
             diag.emplace_back(DiagLevel::Critical, "Extended header denoted but not present.", context);
             throw TruncatedDataException();
         }
@@ -597,31 +620,32 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
         if (majorVersion < 4) {
             m_extendedHeaderSize += 4; // the size does not include the size field itself before v2.4.0
         }
-        if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
+        if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > sizeExcludingHeader
+            || (maximalDataSize && maximalDataSize < (10 + m_extendedHeaderSize))) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
         }
-        stream.seekg(m_extendedHeaderSize - 4, ios_base::cur);
+        dataStream.seekg(m_extendedHeaderSize - 4, ios_base::cur);
     }
 
     // how many bytes remain for frames and padding?
-    std::uint32_t bytesRemaining = m_sizeExcludingHeader - m_extendedHeaderSize;
-    if (maximalSize && bytesRemaining > maximalSize - 10 - m_extendedHeaderSize) {
-        bytesRemaining = static_cast<std::uint32_t>(maximalSize - 10 - m_extendedHeaderSize);
+    std::uint32_t bytesRemaining = sizeExcludingHeader - m_extendedHeaderSize;
+    if (maximalDataSize && bytesRemaining > maximalDataSize - 10 - m_extendedHeaderSize) {
+        bytesRemaining = static_cast<std::uint32_t>(maximalDataSize - 10 - m_extendedHeaderSize);
         diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
     }
 
     // read frames
-    auto pos = static_cast<std::uint64_t>(stream.tellg());
+    auto pos = static_cast<std::uint64_t>(dataStream.tellg());
     const auto frameHeaderSize = majorVersion < 3 ? 6u : 10u;
     while (bytesRemaining) {
         // treat remaining bytes as padding if there is no room for another frame header
         if (bytesRemaining < frameHeaderSize) {
-            m_paddingSize = startOffset + m_size - pos;
+            m_paddingSize = endOffset - pos;
             break;
         }
         // seek to next frame
-        stream.seekg(static_cast<streamoff>(pos));
+        dataStream.seekg(static_cast<streamoff>(pos));
         // parse frame
         Id3v2Frame frame;
         try {
@@ -632,7 +656,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             fields().emplace(frame.id(), std::move(frame));
         } catch (const NoDataFoundException &) {
             if (frame.hasPaddingReached()) {
-                m_paddingSize = startOffset + m_size - pos;
+                m_paddingSize = endOffset - pos;
                 break;
             }
         } catch (const Failure &) {
@@ -658,6 +682,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     }
     if (!maximalSize || m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
+        reader.setStream(&stream);
         stream.seekg(static_cast<streamoff>(startOffset + m_size));
         m_size += 10;
         if (reader.readUInt24LE() != 0x494433u) {
@@ -911,8 +936,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit and footer bit set
-    writer.writeByte(m_tag.flags() & 0xAF);
+    // -> flags, but without unsynchronisation bit, extended header or compression bit and footer bit set
+    writer.writeByte(m_tag.flags() & 0x2F);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From a9cba22e7595cb5224a86ee54142892914629570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 148/156] fix: preserve values when converting between ID3v1
 and ID3v2 tags

---
 mediafileinfo.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index dac9fbc..4b469b9 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1455,7 +1455,10 @@ bool MediaFileInfo::id3v1ToId3v2()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Never, TagUsage::Always, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Never, TagUsage::Always, 3 });
 }
 
 /*!
@@ -1474,7 +1477,10 @@ bool MediaFileInfo::id3v2ToId3v1()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Always, TagUsage::Never, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Always, TagUsage::Never, 3 });
 }
 
 /*!
-- 
2.43.0


From 00ca9c9195071eb8abda44d534df8a3fb674658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 149/156] fix: ensure encoding of values transferred from
 removed ID3v2 tags to ID3v1

---
 mediafileinfo.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4b469b9..51f620a 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -709,6 +709,8 @@ bool MediaFileInfo::createAppropriateTags(const TagCreationSettings &settings)
             for (const auto &tag : id3v2Tags()) {
                 id3v1Tag()->insertValues(*tag, false);
             }
+            // ID3v1 does not support all text encodings which might be used in ID3v2
+            id3v1Tag()->ensureTextValuesAreProperlyEncoded();
         }
         removeAllId3v2Tags();
     } else if (!(flags & TagCreationFlags::KeepExistingId3v2Version)) {
-- 
2.43.0


From 3d29c81a8cb3815b03dfd17d557f4a97008131a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 150/156] fix: allow removing ID3 tags of files which also have
 a container format

---
 mediafileinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 51f620a..b60d9c5 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1165,8 +1165,8 @@ bool MediaFileInfo::removeTag(Tag *tag)
     }
 
     // remove tag via container
-    if (m_container) {
-        return m_container->removeTag(tag);
+    if (m_container && m_container->removeTag(tag)) {
+        return true;
     }
 
     // remove tag via track for "single-track" formats
-- 
2.43.0


From fbfa74cbe34efa819373fc986da1e07fce72d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:55 +0000
Subject: [PATCH 151/156] fix: avoid crash when checking for tags of FLAC files
 before parsing tracks

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index b60d9c5..5860204 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1599,7 +1599,7 @@ vector<Tag *> MediaFileInfo::tags() const
 bool MediaFileInfo::hasAnyTag() const
 {
     return hasId3v1Tag() || hasId3v2Tag() || (m_container && m_container->tagCount())
-        || (m_containerFormat == ContainerFormat::Flac && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
+        || (m_containerFormat == ContainerFormat::Flac && m_singleTrack && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
 }
 
 /*!
-- 
2.43.0


From da370d04341a55bb3bda23c4a623a8b9179d66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:45 +0000
Subject: [PATCH 152/156] fix: create tags for required targets on the right
 stream if there are no tags yet

---
 mediafileinfo.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 5860204..4049f9a 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -624,25 +624,15 @@ bool MediaFileInfo::createAppropriateTags(const TagCreationSettings &settings)
     const auto requiredTargets(settings.requiredTargets);
     const auto flags(settings.flags);
     const auto targetsRequired = !requiredTargets.empty() && (requiredTargets.size() != 1 || !requiredTargets.front().isEmpty());
-    auto targetsSupported = false;
     if (areTagsSupported() && m_container) {
         // container object takes care of tag management
         if (targetsRequired) {
-            // check whether container supports targets
-            if (m_container->tagCount()) {
+            for (const auto &target : requiredTargets) {
                 // all tags in the container should support targets if the first one supports targets
-                targetsSupported = m_container->tag(0)->supportsTarget();
-            } else {
-                // try to create a new tag and check whether targets are supported
-                auto *const tag = m_container->createTag();
-                if (tag && (targetsSupported = tag->supportsTarget())) {
-                    tag->setTarget(requiredTargets.front());
-                }
-            }
-            if (targetsSupported) {
-                for (const auto &target : requiredTargets) {
-                    m_container->createTag(target);
+                if (m_container->tagCount() && !m_container->tag(0)->supportsTarget()) {
+                    break;
                 }
+                m_container->createTag(target);
             }
         } else {
             // no targets are required -> just ensure that at least one tag is present
-- 
2.43.0


From 409654c0dd5a2b2f924e5475849b7f06af754ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:09 +0000
Subject: [PATCH 153/156] fix: do not treat aborted parsing of chapters as
 success or failure

---
 genericfileelement.h           | 2 ++
 matroska/matroskacontainer.cpp | 6 ++++++
 mediafileinfo.cpp              | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index 9aacfa4..2328a6b 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -862,6 +862,8 @@ void GenericFileElement<ImplementationType>::validateSubsequentElementStructure(
         if (element->firstChild()) {
             try {
                 element->firstChild()->validateSubsequentElementStructure(diag, paddingSize, progress);
+            } catch (const OperationAbortedException &) {
+                throw;
             } catch (const Failure &) {
                 // ignore critical errors in child structure to continue validating siblings
                 // (critical notifications about the errors should have already been added to diag, so nothing to do)
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 5a63b18..ef86251 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -758,6 +758,10 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         m_editionEntries.back()->parseNested(diag, progress);
                     } catch (const NoDataFoundException &) {
                         m_editionEntries.pop_back();
+                    } catch (const OperationAbortedException &) {
+                        // discard what has been parsed so far so parsing can be started over
+                        m_editionEntries.clear();
+                        throw;
                     } catch (const Failure &) {
                         diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse edition entry ", m_editionEntries.size(), '.'), context);
                     }
@@ -770,6 +774,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         "\"Chapters\"-element contains unknown child element \"" % subElement->idToString() + "\". It will be ignored.", context);
                 }
             }
+        } catch (const OperationAbortedException &) {
+            throw;
         } catch (const Failure &) {
             diag.emplace_back(DiagLevel::Critical, "Element structure seems to be invalid.", context);
             throw;
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 4049f9a..c4b284b 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -536,6 +536,8 @@ void MediaFileInfo::parseChapters(Diagnostics &diag, AbortableProgressFeedback &
     } catch (const NotImplementedException &) {
         m_chaptersParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing chapters is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing chapters has been aborted.", context);
     } catch (const Failure &) {
         m_chaptersParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse chapters.", context);
@@ -569,6 +571,8 @@ void MediaFileInfo::parseAttachments(Diagnostics &diag, AbortableProgressFeedbac
     } catch (const NotImplementedException &) {
         m_attachmentsParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing attachments is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing attachments has been aborted.", context);
     } catch (const Failure &) {
         m_attachmentsParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse attachments.", context);
-- 
2.43.0


From e6c4af26b330d24e6a42ec3dbd0b6ac8132e7cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:09 +0000
Subject: [PATCH 154/156] fix: allow parsing the container format again after
 it has been aborted

---
 mediafileinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index c4b284b..0ca7aa4 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -149,6 +149,7 @@ void MediaFileInfo::parseContainerFormat(Diagnostics &diag, AbortableProgressFee
     static const string context("parsing file header");
     open(); // ensure the file is open
     m_containerFormat = ContainerFormat::Unknown;
+    m_actualId3v2TagOffsets.clear();
 
     // file size
     m_paddingSize = 0;
@@ -225,6 +226,8 @@ startParsingSignature:
                 static_cast<Mp4Container *>(m_container.get())->validateElementStructure(diag, progress, &m_paddingSize);
             } catch (const OperationAbortedException &) {
                 diag.emplace_back(DiagLevel::Information, "Validating the MP4 element structure has been aborted.", context);
+                m_container.reset();
+                return;
             } catch (const Failure &) {
                 m_containerParsingStatus = ParsingStatus::CriticalFailure;
             }
@@ -248,6 +251,7 @@ startParsingSignature:
                 }
             } catch (const OperationAbortedException &) {
                 diag.emplace_back(DiagLevel::Information, "Validating the Matroska element structure has been aborted.", context);
+                return;
             } catch (const Failure &) {
                 m_containerParsingStatus = ParsingStatus::CriticalFailure;
             }
-- 
2.43.0


From 51050e558817833e2483b8d764207ec071729b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:09 +0000
Subject: [PATCH 155/156] fix: do not add padding of ID3v2 tags multiple times
 after aborting

---
 mediafileinfo.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 0ca7aa4..f9d2c4e 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -457,6 +457,7 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
     }
 
     // check for ID3v2 tags: the offsets of the ID3v2 tags have already been parsed when parsing the container format
+    auto id3v2PaddingSize = std::uint64_t();
     m_id3v2Tags.clear();
     for (const auto offset : m_actualId3v2TagOffsets) {
         auto id3v2Tag = make_unique<Id3v2Tag>();
@@ -464,10 +465,12 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
         try {
             id3v2Tag->parse(stream(), size() - static_cast<std::uint64_t>(offset), diag);
             m_paddingSize += id3v2Tag->paddingSize();
+            id3v2PaddingSize += id3v2Tag->paddingSize();
         } catch (const NoDataFoundException &) {
             continue;
         } catch (const OperationAbortedException &) {
             diag.emplace_back(DiagLevel::Information, "Parsing ID3v2 tags has been aborted.", context);
+            m_paddingSize -= id3v2PaddingSize;
             return;
         } catch (const Failure &) {
             m_tagsParsingStatus = ParsingStatus::CriticalFailure;
@@ -486,6 +489,9 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
             if (m_tagsParsingStatus == ParsingStatus::NotParsedYet) {
                 m_tagsParsingStatus = m_tracksParsingStatus;
             }
+            if (m_tagsParsingStatus == ParsingStatus::NotParsedYet) {
+                m_paddingSize -= id3v2PaddingSize;
+            }
             return;
         } else if (m_container) {
             m_container->parseTags(diag, progress);
@@ -506,6 +512,8 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
         diag.emplace_back(DiagLevel::Information, "Parsing tags is not implemented for the container format of the file.", context);
     } catch (const OperationAbortedException &) {
         diag.emplace_back(DiagLevel::Information, "Parsing tags from container/streams has been aborted.", context);
+        // do not consider the padding of ID3v2 tags twice when parsing tags again
+        m_paddingSize -= id3v2PaddingSize;
         return;
     } catch (const Failure &) {
         m_tagsParsingStatus = ParsingStatus::CriticalFailure;
-- 
2.43.0


From 38d4a7f36ec7c439840b8a4b3262b567aea97fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:09 +0000
Subject: [PATCH 156/156] fix: start over when parsing Ogg streams again after
 aborting

---
 ogg/oggcontainer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index b0c0a6b..98e5b69 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -195,6 +195,11 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
     auto pagesSkipped = false, continueFromHere = false;
     auto nextPageIndex = std::size_t();
 
+    // discard streams of a previous attempt which has been aborted
+    m_streamsBySerialNo.clear();
+    m_tracks.clear();
+    m_tags.clear();
+
     // iterate through pages using OggIterator helper class
     try {
         // ensure iterator is setup properly
@@ -393,6 +398,7 @@ void OggContainer::announceComment(std::size_t pageIndex, std::size_t segmentInd
 void OggContainer::internalParseTracks(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing Ogg stream");
+    m_tags.clear(); // discard tags announced by a previous attempt which has been aborted
     for (auto &stream : m_tracks) {
         if (progress.isAborted()) {
             throw OperationAbortedException();
-- 
2.43.0

