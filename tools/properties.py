NOTE = ("Bounded: every path of the compiled functions within the bounds listed in the evidence is explored and every assertion on it is decided by Z3 for all values of the "
        "symbolic bytes; violations are replayed on a native ASan build of the same sources. Trusts clang's IR, Z3 and the models of iconv/locale/file streams in /verif/models.")
PROPS = []
NOT_APPLICABLE = {}


def prop(id, title, statement, quant, why, files, mech, over=("inputs",), note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, over=list(over), note=(note + " " if note else "") + NOTE))


prop("T01", "Text values keep their characters through every supported encoding",
     "Text assigned to a tag value with any of the encodings Latin-1, UTF-8, UTF-16LE and UTF-16BE reads back as exactly the same characters, in the encoding it was assigned with "
     "or in any other one, whether it is converted when assigning, in place or when reading; only a leading byte order mark of the text's own encoding is removed. Text which cannot be "
     "represented in the target encoding is reported as a conversion error instead of being altered silently. Two text values are equal exactly if they hold the same characters, whatever their encodings; the same applies to the descriptions of values.",
     "Every text of up to 4 (thorough: 6) bytes, every pair of encodings, every way of converting",
     "Tests convert a handful of fixed strings; byte-order, surrogate, BOM and buffer-size mistakes show only for other characters, lengths and encoding pairs.",
     ["tagvalue.cpp", "tagvalue.h"],
     [("TagValue::assignText / toString / convertDataEncoding / convertDescriptionEncoding / toWString", "tagvalue.cpp"), ("TagValue::stripBom", "tagvalue.cpp"),
      ("TagValue::compareTo", "tagvalue.cpp")])
prop("T02", "Numbers, positions and genres convert exactly or are reported",
     "A number, position (\"x/y\") or genre stored in a tag value as integer, unsigned integer, position, genre index or text reads back as the same number through every other typed "
     "accessor that can represent it. Everything that cannot be represented (out of range, not a number, wrong data size) is reported as a conversion error; nothing is truncated, "
     "wrapped around or read beyond the stored data.",
     "All 32/64-bit integers and positions, raw data of 0..9 bytes of every type, position texts of up to 5 characters, every genre",
     "Tests use a few small constants; overflow, sign and size mistakes show at boundary values and for odd data sizes.",
     ["tagvalue.cpp", "positioninset.h", "id3/id3genres.cpp"],
     [("TagValue::toInteger / toUnsignedInteger / toPositionInSet / toStandardGenreIndex", "tagvalue.cpp"), ("PositionInSet(const string&)", "positioninset.h")])
prop("T03", "Copies, moves and comparisons of tag values are faithful",
     "Copying or moving a tag value transfers its data, type, encoding, description, MIME type, language and flags; later changes to one copy never affect another, and a moved-from or cleared value can be "
     "assigned again. Whatever was assigned last is what reads back, whatever was assigned before. Equality is symmetric, the opposite of inequality, holds for values of the same kind exactly if the data is "
     "equal and takes metadata (except when told otherwise) into account.",
     "Every sequence of three assignments of data of up to 3 bytes; every pair of values of 8 types with data of up to 2 (thorough: 3) bytes",
     "The tests copy and compare single fixed values; aliasing, stale sizes and asymmetry depend on sequences of operations and combinations of types.",
     ["tagvalue.cpp", "tagvalue.h"],
     [("copy/move constructors and assignment operators", "tagvalue.cpp"), ("TagValue::assignData", "tagvalue.cpp"), ("TagValue::compareTo", "tagvalue.cpp")], over=("inputs", "histories"))
prop("T04", "Ratings survive storage and scaling between tag formats",
     "A popularity (user, rating, play counter, scale) stored in a tag value or written as text reads back unchanged. Scaling a rating from one tag format's scale to another and back yields the original rating, "
     "keeps order and maps the ends of the scales onto each other; empty ratings stay empty. Damaged stored data is reported and never read beyond its end.",
     "Every 64-bit rating pattern and counter when storing; all whole ratings of every scale for every pair of formats; stored forms of up to 30 damaged bytes",
     "Tests check a few ratings of a few formats.",
     ["tagvalue.cpp", "tagvalue.h"],
     [("Popularity::scaleTo / scaled", "tagvalue.cpp"), ("TagValue::assignPopularity / toPopularity", "tagvalue.cpp"), ("Popularity::toString / fromString", "tagvalue.cpp")])
prop("I01", "ID3v1 tags are written and read as specified",
     "Making an ID3v1 tag yields exactly 128 bytes in the ID3v1.1 layout: title, artist, album, year, comment, track number and genre each at their place, padded with zeros and cut to the field's size (with a "
     "warning when something is lost). Parsing those bytes yields the same fields; every 128-byte block starting with \"TAG\" is read without leaving the block, and everything else is reported as no tag.",
     "One field of arbitrary content and 0..33 bytes at a time, all track numbers and genres, every 128-byte block, every truncated one",
     "Tests read a few sample files; the boundaries of the fixed-size fields, the BOM and the high bytes do not occur in them.",
     ["id3/id3v1tag.cpp", "id3/id3genres.cpp"],
     [("Id3v1Tag::parse / make / setValue / hasField", "id3/id3v1tag.cpp"), ("Id3v1Tag::writeValue / readValue / prepareField", "id3/id3v1tag.cpp")])
prop("T05", "Tag fields behave as a multimap and known fields map to format fields and back",
     "In ID3v2, Vorbis comment, MP4 and Matroska tags, what was set or added for a known field is what reads back, in order; setting or removing a field changes no other field, field counts and presence agree "
     "with the values. The mapping between known fields and the format's field IDs is consistent in both directions, and inserting values of one tag into another (of the same or another format) transfers every field both formats know, "
     "overwriting only if requested. Tag targets compare and render their levels and IDs consistently.",
     "Every sequence of three operations on any known fields with arbitrary short texts; every pair of formats; every known field; every target level",
     "Tests set a few fields; the ID maps have about 60 entries per format and the interplay of set/add/remove depends on sequences.",
     ["fieldbasedtag.h", "tag.cpp", "id3/id3v2tag.cpp", "vorbis/vorbiscomment.cpp", "mp4/mp4tag.cpp", "matroska/matroskatag.cpp", "tagtarget.cpp"],
     [("FieldMapBasedTag::setValue / setValues / values / hasField", "fieldbasedtag.h"), ("internallyGetFieldId / internallyGetKnownField", "id3/id3v2tag.cpp"),
      ("Tag::insertValues", "tag.cpp")], over=("inputs", "histories"))
prop("I02", "ID3v2 frames are written and read back unchanged",
     "Every ID3v2 frame made for version 2.2, 2.3 or 2.4 has a correct header (ID in the form of the version, size, flags), takes exactly the announced number of bytes and reads back as the same value: texts (one or several) with the same "
     "characters, track/disk positions, lengths, genres, URLs, comments/lyrics with language and description, pictures with MIME type, picture type and description, popularimeters, play counters and unknown frames byte by byte. Encodings a version "
     "does not support are not used in it. Frames of other software (terminated or not, with any byte order mark, damaged, truncated, padding) are read without leaving the frame; what can't be read is reported and the following frame is found.",
     "Texts of up to 2 (3) code units in every encoding, every rating/counter/picture type, frame bodies of up to 10 arbitrary bytes, every frame header, for all three versions",
     "Tests read and write a few files with plain texts; encodings, terminations, boundary sizes and damaged frames do not occur.",
     ["id3/id3v2frame.cpp", "id3/id3v2frame.h", "id3/id3v2frameids.cpp"],
     [("Id3v2Frame::parse / parseSubstring / parsePicture / parseComment", "id3/id3v2frame.cpp"), ("Id3v2FrameMaker", "id3/id3v2frame.cpp")])
prop("I03", "ID3v2 tags are written and read back unchanged, within their size",
     "Making an ID3v2 tag writes the announced number of bytes with sync-safe size and zero padding; parsing it yields the same version, fields (all values, in order) and padding, and writing that again yields the same bytes. Recording dates of "
     "older versions (TYER/TDAT/TIME) and TDRC convert into each other without changing date or time; impossible dates are reported. Extended headers and footers are skipped, tags cut off or damaged are reported and never read beyond their size; "
     "frame IDs are ordered consistently with short and long form of an ID being equivalent.",
     "Every combination of six fields, paddings and sizes around the sync-safe boundaries, every header, arbitrary digits as dates, arbitrary bytes as frames",
     "Tests cover a few complete files.",
     ["id3/id3v2tag.cpp", "id3/id3v2tag.h", "id3/id3v2frameids.cpp"],
     [("Id3v2Tag::parse / Id3v2TagMaker", "id3/id3v2tag.cpp"), ("convertOldRecordDateFields / prepareRecordDataForMaking", "id3/id3v2tag.cpp"), ("FrameComparer", "id3/id3v2tag.cpp")])
prop("V01", "Vorbis comments are written and read back unchanged",
     "Making a Vorbis comment yields vendor, field count and fields with correct sizes; parsing it yields the same vendor and, for every field, the same values in the same order (all covers included), and exactly the written bytes are consumed. "
     "Texts are written as UTF-8 whatever their encoding, positions and numbers as digits, covers as METADATA_BLOCK_PICTURE with type, MIME type, description and data. Comments of other software (any field names, missing separators, wrong counts, truncated) are read "
     "without leaving the given size; what can't be read is reported.",
     "Vendors and values of up to 2 code units in every encoding, all combinations of fields, covers of every type, arbitrary comment bodies of up to 12 bytes",
     "Tests read and write a few files; several covers, non-UTF-8 values, empty values and damaged comments do not occur.",
     ["vorbis/vorbiscomment.cpp", "vorbis/vorbiscommentfield.cpp", "flac/flacmetadata.cpp"],
     [("VorbisComment::parse / make", "vorbis/vorbiscomment.cpp"), ("VorbisCommentField::parse / make", "vorbis/vorbiscommentfield.cpp"),
      ("FlacMetaDataBlockPicture::parse / make", "flac/flacmetadata.cpp")])
prop("F01", "FLAC streams keep their audio data and blocks when tags change",
     "Parsing a FLAC stream yields the stream information, tags, covers and padding of its metadata blocks. Applying changes writes the tags as requested and keeps all audio frames and all metadata blocks of other kinds byte by byte and in order, "
     "keeps STREAMINFO first, marks exactly the last block as last, gives every block its correct size and obeys the padding constraints; covers too big for a block are reported instead of damaging the file. "
     "Block headers convert to bits and back.",
     "Streams with every combination of blocks, ID3v1/ID3v2 tags, paddings and tag changes; all STREAMINFO bits, all block headers, pictures with arbitrary header bytes",
     "Tests cover two sample files with one order of blocks.",
     ["flac/flacstream.cpp", "flac/flacmetadata.cpp", "mediafileinfo.cpp"],
     [("FlacStream::internalParseHeader / makeHeader / makePadding", "flac/flacstream.cpp"), ("FlacMetaDataBlockHeader / StreamInfo / Picture", "flac/flacmetadata.cpp"),
      ("MediaFileInfo::makeMp3File", "mediafileinfo.cpp")])
prop("A01", "Applying changes to MP3 files writes the requested tags and keeps the audio",
     "Applying changes to an MP3 file yields a file holding exactly the requested ID3v1 and ID3v2 tags around the unchanged audio data (and APE tag), whether the file is updated in place or rewritten or saved under another name. The file is rewritten "
     "if and only if forced or if the new tags don't fit the available space within the padding constraints; a rewritten file has the preferred padding, the original file remains untouched when saving under another name, and whenever the file was rewritten a backup holds its original bytes.",
     "Every combination of present tags, changed/added/removed tags, paddings, padding constraints and options",
     "Tests apply changes to a few sample files with few combinations of options.",
     ["mediafileinfo.cpp", "id3/id3v2tag.cpp", "id3/id3v1tag.cpp"],
     [("MediaFileInfo::applyChanges / makeMp3File / parseContainerFormat / parseTags", "mediafileinfo.cpp"), ("Id3v2TagMaker::make", "id3/id3v2tag.cpp")], over=("inputs", "histories"))
prop("O01", "Ogg pages and their segments are read exactly as RFC 3533 defines them",
     "Reading an Ogg page yields its header values, segments (sizes, offsets, whether the last one is continued) and total size as defined by RFC 3533; pages which are truncated or don't start with the capture pattern are reported. Checksums are computed and updated as "
     "defined, changing nothing else. Iterating, forwards and backwards, by segments and pages, with and without filter, delivers exactly the segments of the wanted stream in order, reading and skipping bytes crosses pages and segments without losing or repeating any; reading beyond the end is reported. "
     "After invalid data the next complete page is found, within the stream only.",
     "Arbitrary page headers with up to 3 (thorough: 5) arbitrary lacing values; every sequence of two (thorough: three) movements over files of three pages; up to six (eight) arbitrary bytes between pages",
     "Tests read sample files forwards; continued segments, empty pages, going back and damaged files do not occur.",
     ["ogg/oggpage.cpp", "ogg/oggpage.h", "ogg/oggiterator.cpp", "ogg/oggiterator.h"],
     [("OggPage::parseHeader / computeChecksum / updateChecksum", "ogg/oggpage.cpp"), ("OggIterator::nextSegment / previousSegment / read / ignore / resyncAt", "ogg/oggiterator.cpp")],
     over=("inputs", "histories"))
prop("O02", "Applying changes to Ogg files changes the comments only",
     "Applying changes to an Ogg file yields a well-formed file (page sequence numbers, checksums, flags, granule positions) with the comment of every stream as requested; all other packets of all streams keep their bytes, order, timing and paging, wherever comments and other headers "
     "begin or end within pages and however the comments grow or shrink. Format, duration and tags of the streams are read correctly before and afterwards, the original bytes are kept as backup, damaged files are read without leaving their bounds.",
     "Vorbis, Opus and FLAC streams with eight layouts of header packets, three kinds of empty pages, ten new sizes of comments, one or two streams multiplexed in three ways; every truncation and every byte of a file changed",
     "Tests change two sample files with a single stream where the comment has a page on its own.",
     ["ogg/oggcontainer.cpp", "ogg/oggstream.cpp", "vorbis/vorbiscomment.cpp", "opus/opusidentificationheader.cpp", "vorbis/vorbisidentificationheader.cpp", "flac/flactooggmappingheader.cpp"],
     [("OggContainer::internalMakeFile / internalParseTags / internalParseHeader", "ogg/oggcontainer.cpp"), ("OggStream::internalParseHeader", "ogg/oggstream.cpp")], over=("inputs", "histories"))
prop("B01", "The original file survives failures and aborts when applying changes",
     "When changes are applied to a file by rewriting it, a failing file operation, an abort requested at any time or an exception thrown by a callback leaves the original content at the original path (or, if even restoring is impossible, under the name of the backup), and the failure is reported "
     "as the matching exception; existing backups and other files are never touched, and the file the changes are saved to under another name is the only one written. If no exception is thrown and nothing critical is reported, the file is complete, also if the backup could only be made by copying. Backups get the first unused name, hold "
     "exactly the original content and can be restored; reported progress stays within 0 and 100 percent and does not go back within a step.",
     "Every single file operation failing, once or from then on; aborting and throwing in every progress callback; six kinds of files, two changes, four ways of saving",
     "Tests abort at one point and simulate one kind of failure for backups only; a failure of a particular write cannot be provoked by running a test.",
     ["backuphelper.cpp", "mediafileinfo.cpp", "ogg/oggcontainer.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "progressfeedback.h", "basicfileinfo.cpp"],
     [("createBackupFile / restoreOriginalFileFromBackupFile / handleFailureAfterFileModifiedCanonical", "backuphelper.cpp"), ("MediaFileInfo::makeMp3File", "mediafileinfo.cpp"),
      ("OggContainer::internalMakeFile", "ogg/oggcontainer.cpp"), ("Mp4Container::internalMakeFile", "mp4/mp4container.cpp"), ("MatroskaContainer::internalMakeFile", "matroska/matroskacontainer.cpp")],
     over=("inputs", "faults"))
prop("G01", "Tags are created, converted, merged and removed as requested",
     "After requesting appropriate tags according to settings (usage of ID3v1 and ID3v2, version of ID3v2, flags for conversion, merging, keeping and required targets) a file has exactly the tags which the settings demand and every value present before is still present whenever a remaining tag can hold it; values of the preferred tag win when merging and no value is changed or duplicated. "
     "Tags for required targets are created exactly once, on the right stream, and everything else is kept. Removing a single tag or all tags (of a kind) removes exactly these. When a request cannot be fulfilled this is returned and nothing changes.",
     "MP3 and unknown files with any combination of an ID3v1 and up to two ID3v2 tags with arbitrary values, all usages, flags and versions; Matroska files with up to two tags and two required targets, Ogg files of two streams; MP4 and FLAC files with and without tags",
     "There are 3*3*32 combinations of settings times all combinations of existing tags and values; tests use a handful of settings on a few files.",
     ["mediafileinfo.cpp", "mediafileinfo.h", "settings.h", "genericcontainer.h", "ogg/oggcontainer.cpp", "matroska/matroskacontainer.cpp", "flac/flacstream.cpp", "tag.cpp", "id3/id3v1tag.cpp"],
     [("MediaFileInfo::createAppropriateTags / id3v1ToId3v2 / id3v2ToId3v1 / mergeId3v2Tags", "mediafileinfo.cpp"), ("MediaFileInfo::removeTag / removeAllTags / removeAllId3Tags / hasAnyTag", "mediafileinfo.cpp"), ("GenericContainer::createTag / removeTag", "genericcontainer.h"), ("OggContainer::createTag / removeTag", "ogg/oggcontainer.cpp")])
prop("P01", "Results of parsing do not depend on the order of calls, aborts or history",
     "For every file, the results of parsing (format, offsets, sizes, padding, tags, tracks, editions, chapters, attachments, status) are the same regardless of the order in which the parsing functions are called, how often they are called, which other file the object was used for before, "
     "and whether parsing has been aborted at any point before: an aborted operation is reported neither as success nor as failure and can be completed by calling the functions again, without anything being lost or present twice.",
     "14 kinds of files including ID3v2 tags in front of other formats, several streams, editions and nested chapters; every sequence of four calls; aborts before any operation on the stream, up to two times; every pair of files for the same object; with and without forcing a full parse",
     "Tests call everything once in one order and never abort parsing; the point of an abort is a schedule.",
     ["mediafileinfo.cpp", "abstractcontainer.cpp", "genericcontainer.h", "genericfileelement.h", "ogg/oggcontainer.cpp", "matroska/matroskacontainer.cpp", "mp4/mp4container.cpp", "basicfileinfo.cpp", "progressfeedback.h"],
     [("MediaFileInfo::parseContainerFormat / parseTracks / parseTags / parseChapters / parseAttachments / parseEverything / clearParsingResults", "mediafileinfo.cpp"), ("AbstractContainer::parseHeader / parseTags / parseTracks", "abstractcontainer.cpp"), ("GenericFileElement::validateSubsequentElementStructure", "genericfileelement.h"), ("OggContainer::internalParseHeader / internalParseTracks", "ogg/oggcontainer.cpp"), ("MatroskaContainer::internalParseChapters", "matroska/matroskacontainer.cpp")])
prop("K01", "EBML elements are read and written as specified",
     "IDs, sizes, unsigned integers and simple elements are written with the announced number of bytes such that a reader following the EBML specification gets the same values back, for every value; elements are read with their exact ID, size, data offset and tree position, including "
     "non-minimal and unknown sizes of any length. Truncated or damaged headers are reported, an element never exceeds its parent or the file, bytes of junk in front of an element are skipped with a warning, and numbers, floats and strings are read as stored.",
     "All 64-bit values; all 32-bit IDs; every header of up to 12 arbitrary bytes; trees of three levels with known and unknown sizes",
     "Test files contain only the usual IDs and sizes; sizes of every length, unknown sizes and damaged headers cannot be covered by samples.",
     ["matroska/ebmlelement.cpp", "matroska/ebmlelement.h", "genericfileelement.h"],
     [("EbmlElement::internalParse", "matroska/ebmlelement.cpp"), ("EbmlElement::makeSizeDenotation / makeId / makeUInteger / makeSimpleElement", "matroska/ebmlelement.cpp"), ("EbmlElement::readString / readUInteger / readFloat", "matroska/ebmlelement.cpp")])
prop("K02", "Matroska tags are written and read back unchanged",
     "A Matroska tag written by the library consists of well-formed elements of exactly the announced size, and reading it - by an independent reader or by the library - yields the same fields: names, text and binary values, languages, nested fields, the targets and the target level. "
     "Tags of other writers are read with elements in any order; unknown, repeated or missing elements are reported or ignored without losing other fields, and damaged tags neither yield data which is not there nor affect other tags.",
     "One to three fields with texts of up to 3 arbitrary bytes in every encoding and of sizes around the limits of size denotations; all target levels and 64-bit IDs; nested fields up to two levels; tags with one arbitrary byte anywhere",
     "The tests write a few fixed values; sizes, encodings, nesting and damage are beyond what they sample.",
     ["matroska/matroskatag.cpp", "matroska/matroskatagfield.cpp", "matroska/matroskatag.h", "matroska/matroskatagfield.h", "fieldbasedtag.h", "tagtarget.cpp"],
     [("MatroskaTag::parse2 / prepareMaking / parseTargets", "matroska/matroskatag.cpp"), ("MatroskaTagMaker::make", "matroska/matroskatag.cpp"), ("MatroskaTagField::reparse", "matroska/matroskatagfield.cpp"), ("MatroskaTagFieldMaker", "matroska/matroskatagfield.cpp")])
prop("K03", "Saving Matroska files keeps everything but the tags and all references valid",
     "After applying changes to a Matroska file - in place or by rewriting it, with any padding limits and any requested or forced position of tags and index - the file consists of well-formed elements which exactly fill their parents, all blocks, chapters, attachments, tracks and other information are unchanged, "
     "the requested tags are present exactly once, and every reference still points to the same thing: seek information, index entries including relative positions, codec states and references, positions and previous sizes of clusters, and checksums. Padding is within the limits or the preferred size, and saving always finishes.",
     "Files of one or two segments and up to three clusters; every order of elements, known and unknown sizes, contents of clusters and of the index, sizes around those at which the number of bytes of sizes and positions changes, all combinations of the options for saving",
     "Errors depend on sizes crossing limits, on the order of elements and on options in combination; tests cover one file per feature and do not check references.",
     ["matroska/matroskacontainer.cpp", "matroska/matroskacues.cpp", "matroska/matroskaseekinfo.cpp", "matroska/ebmlelement.cpp", "genericfileelement.h", "mediafileinfo.cpp"],
     [("MatroskaContainer::internalMakeFile / internalParseHeader / validateIndex", "matroska/matroskacontainer.cpp"), ("MatroskaCuePositionUpdater::parse / updateOffsets / updateRelativeOffsets / make", "matroska/matroskacues.cpp"), ("MatroskaSeekInfo::parse / push / make", "matroska/matroskaseekinfo.cpp")])
prop("K04", "Information about Matroska tracks, chapters and attachments is correct",
     "For every Matroska file the provided information about segments (titles, applications, duration), tracks (type, number, UID, flags, names, languages, sizes, cropping, frame rate, audio parameters, codec headers, statistics from tags), editions, chapters (times, flags, tracks, names, languages, nesting) and attachments equals what the file stores according to RFC 9559, "
     "regardless of the order of elements and with the specified defaults; absurd numbers are harmless, damage within one element does not affect others, neither the number nor the nesting of elements makes the library crash, and added, removed and changed attachments are stored as requested.",
     "Files of up to two segments, tracks, editions and attachments, chapters of three levels; arbitrary numbers, floating-point numbers and texts; three orders of elements; one arbitrary byte at every position of a track, edition or attachment; 30000 siblings or levels",
     "Tests compare a handful of properties of three sample files; they contain no chapter tracks, no unusual order, no extreme numbers and no damage.",
     ["matroska/matroskatrack.cpp", "matroska/matroskachapter.cpp", "matroska/matroskaeditionentry.cpp", "matroska/matroskaattachment.cpp", "matroska/matroskacontainer.cpp", "genericfileelement.h", "abstractattachment.cpp", "wav/waveaudiostream.cpp"],
     [("MatroskaTrack::internalParseHeader / readStatisticsFromTags", "matroska/matroskatrack.cpp"), ("MatroskaChapter::internalParse", "matroska/matroskachapter.cpp"), ("MatroskaAttachment::parse / make", "matroska/matroskaattachment.cpp"), ("MatroskaContainer::parseSegmentInfo / internalParseTracks / internalParseChapters / internalParseAttachments", "matroska/matroskacontainer.cpp")])
prop("S01", "Properties of streams are determined correctly from their headers",
     "Version, layer, bitrate, sampling frequency, channels, frame size, number of samples, size and duration of MPEG audio (with constant bitrate or according to a Xing header located depending on version and channels, also after junk and within WAVE files), the values of ADTS headers, IVF headers (including fractional frame rates) and RIFF/WAVE headers (all format variants, "
     "padded segments, any order) and all parts of AVC configurations (SPS with scaling lists, cropping, aspect ratio, timing and emulation prevention, PPS) are what the formats' specifications say. Ordinary data is never taken for a header, invalid values never lead to reads beyond tables or buffers, crashes, or durations and bitrates which are no numbers.",
     "All MPEG audio and ADTS headers, Xing headers with all combinations of fields, arbitrary values of WAVE and IVF headers, SPS with arbitrary sizes, cropping, timing and aspect ratios, up to 31 entries, every truncation, one arbitrary byte at any position of a WAVE header, up to three arbitrary bytes of an SPS",
     "There are no tests for ADTS, IVF and WAVE at all and one MPEG audio file with one header; the reserved values and rare variants do not occur in any sample.",
     ["mpegaudio/mpegaudioframe.cpp", "mpegaudio/mpegaudioframe.h", "mpegaudio/mpegaudioframestream.cpp", "adts/adtsframe.h", "adts/adtsframe.cpp", "adts/adtsstream.cpp", "ivf/ivfstream.cpp", "wav/waveaudiostream.cpp", "avc/avcinfo.cpp", "avc/avcconfiguration.cpp", "aspectratio.cpp"],
     [("MpegAudioFrame::parseHeader / bitrate / size", "mpegaudio/mpegaudioframe.cpp"), ("MpegAudioFrameStream::internalParseHeader", "mpegaudio/mpegaudioframestream.cpp"), ("AdtsFrame::parseHeader", "adts/adtsframe.cpp"), ("WaveFormatHeader::parse / WaveAudioStream::internalParseHeader", "wav/waveaudiostream.cpp"), ("IvfStream::internalParseHeader", "ivf/ivfstream.cpp"), ("SpsInfo::parse / PpsInfo::parse", "avc/avcinfo.cpp"), ("AvcConfiguration::parse", "avc/avcconfiguration.cpp")])
prop("S02", "The format of a file is determined from its signature",
     "For every beginning of a file the container format is exactly the one denoted by the signature (including RIFF variants, TAR and buffers shorter than a signature), regardless of any number of ID3v2 tags (with padding or footer), APE tags, zero bytes and junk in front of it - up to the documented limit of 2 KiB - "
     "and the offset of the actual file, the number of skipped bytes and the reported problems are exact. The effective size and thus duration and bitrate are those of the media data without ID3v1, ID3v2 and APE tags; sizes of tags which are absurd or exceed the file are harmless. Names, extensions and MIME types match the format.",
     "All buffers of up to 16 bytes; every sequence of up to two (thorough: three) of six kinds of prefixes in front of six formats with arbitrary following bytes; junk around the limit; all combinations of tags in front and at the end; 24 absurd sizes of every kind of tag",
     "The test for signatures checks four of 47 signatures; combinations of prefixes and sizes around limits do not occur in sample files.",
     ["signature.cpp", "signature.h", "mediafileinfo.cpp"],
     [("parseSignature", "signature.cpp"), ("containerFormatAbbreviation / containerFormatName / containerMimeType", "signature.cpp"), ("MediaFileInfo::parseContainerFormat / parseTags / parseTracks", "mediafileinfo.cpp")])
prop("M01", "MP4 atoms and iTunes-style tags are written and read back unchanged",
     "An MP4 tag written by the library consists of well-formed atoms of exactly the announced size, and reading it - by an independent reader or by the library - yields the same fields: texts in either encoding, numbers, track and disk positions, genres, media types and ratings, covers with their types, and extended fields. "
     "Values which cannot be represented are reported instead of being stored differently. Fields of other writers are read with every data type and size, several values per field, unknown fields and types are kept, and damaged fields don't affect others. Headers of atoms are read and written as specified for 32- and 64-bit sizes.",
     "Texts of up to 3 arbitrary bytes in every encoding, all numbers, positions and genres, covers of every type, foreign data of every type with up to 9 arbitrary bytes, every byte of a field changed or cut off, atom headers of 16 arbitrary bytes",
     "The tests read a few fields of sample files; number ranges, UTF-16, several covers, other data types and damage do not occur in them.",
     ["mp4/mp4tag.cpp", "mp4/mp4tagfield.cpp", "mp4/mp4atom.cpp", "mp4/mp4ids.cpp"],
     [("Mp4Tag::parse / setValue / setValues / values", "mp4/mp4tag.cpp"), ("Mp4TagMaker", "mp4/mp4tag.cpp"), ("Mp4TagField::reparse", "mp4/mp4tagfield.cpp"), ("Mp4TagFieldMaker::prepareDataAtom / make", "mp4/mp4tagfield.cpp"), ("Mp4Atom::internalParse / makeHeader", "mp4/mp4atom.cpp")])
prop("M02", "Saving MP4 files keeps everything but the tags and all references valid",
     "After applying changes to an MP4 file - in place or by rewriting it, with any padding limits and any requested or forced position of tags and index - the file consists of well-formed atoms which exactly fill their parents, file type, movie header, track headers, sample descriptions, other user data and all other atoms are unchanged, "
     "every chunk and fragment offset still points to the same media data, and the requested tags are present exactly once. Padding is within the limits or the preferred size. When tracks are removed, the remaining tracks keep their header and their chunks.",
     "Files with up to three media data atoms, two tracks and three chunks per atom, atoms in 22 orders with 32- and 64-bit sizes and extending to the end of the file, fragments, contents of tracks and user data of many kinds, sizes of tags around the available padding, all combinations of the options for saving",
     "Errors depend on layout, sizes and options in combination; tests cover one file per feature and do not resolve the chunk offsets.",
     ["mp4/mp4container.cpp", "mp4/mp4track.cpp", "mp4/mp4atom.cpp", "genericfileelement.h", "genericcontainer.h", "mediafileinfo.cpp"],
     [("Mp4Container::internalMakeFile / updateOffsets", "mp4/mp4container.cpp"), ("Mp4Track::updateChunkOffsets / translateOffset / requiredSize / makeTrack / makeTrackHeader / makeMedia / makeSampleTable", "mp4/mp4track.cpp"), ("Mp4Atom::internalParse", "mp4/mp4atom.cpp")])
prop("M03", "Track information of MP4 files is read as specified",
     "Everything reported about a track of an MP4 file is what the file says: flags, ID, times, time scale, duration (exact to the tick, without time scale zero, at most the longest duration), language, media type and name of either style, number and sizes of samples (including compact tables and fragments), offsets and sizes of chunks, format, channels, "
     "sampling frequency, dimensions, depth, compressor, and the elementary stream descriptor including every bit of the MPEG-4 audio configuration. Tables which are too short, too long or denote more entries than present are reported and read as far as present; no damage of a track or truncation of the file affects other tracks.",
     "Every header field, table entry and up to 7 bytes of audio configuration arbitrary; tables of up to four entries, fragments with all combinations of fields, all versions of headers; one arbitrary byte at any position of a track; truncation at any position",
     "Sample files contain one version of each header and well-formed tables; arithmetic on extreme values, rare layouts and damage cannot be covered by samples.",
     ["mp4/mp4track.cpp", "mp4/mp4container.cpp", "mp4/mpeg4descriptor.cpp", "mp4/mp4ids.cpp", "mp4/mp4track.h"],
     [("Mp4Track::internalParseHeader", "mp4/mp4track.cpp"), ("Mp4Track::readChunkOffsets / readChunkSizes / readSampleToChunkTable", "mp4/mp4track.cpp"), ("Mp4Track::parseMpeg4ElementaryStreamInfo / parseAudioSpecificConfig / parseVideoSpecificConfig", "mp4/mp4track.cpp"),
      ("Mp4Container::internalParseTracks / makeDuration / makeTime", "mp4/mp4container.cpp"), ("Mpeg4Descriptor::internalParse", "mp4/mpeg4descriptor.cpp")])
