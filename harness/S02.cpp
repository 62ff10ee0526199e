// The format of a file is determined from its signature, regardless of tags, padding and junk in front of it.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include <cstring>
#include <tagparser/abstracttrack.h>
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/signature.h>
using namespace TagParser;
//! bound: all buffers of up to 16 bytes; files with up to three tags in front, zero bytes and junk of up to 2.1 KiB, tags at the end of every kind
//! outside: signatures of formats unknown to the library, APE tags in front of the file which exceed the file

struct Sig {
    ContainerFormat format;
    unsigned offset, length;
    const char *bytes;
};
using C = ContainerFormat;
// in order of precedence
static const Sig sigs[] = {
    { C::ApeTag, 0, 8, "APETAGEX" }, { C::Ar, 0, 8, "!<arch>\n" }, { C::Asf, 0, 8, "\x30\x26\xB2\x75\x8E\x66\xCF\x11" }, { C::Asf, 0, 8, "\xA6\xD9\x00\xAA\x00\x62\xCE\x6C" },
    { C::Png, 0, 8, "\x89PNG\r\n\x1A\n" }, { C::YUV4Mpeg2, 0, 10, "YUV4MPEG2 " }, { C::Mp4, 4, 4, "ftyp" }, { C::QuickTime, 4, 4, "moov" }, { C::Rar, 0, 7, "Rar!\x1A\x07\x00" },
    { C::Gif87a, 0, 6, "GIF87a" }, { C::Gif89a, 0, 6, "GIF89a" }, { C::SevenZ, 0, 6, "7z\xBC\xAF\x27\x1C" }, { C::Xz, 0, 6, "\xFD" "7zXZ\x00" }, { C::Aiff, 0, 5, "FORM\x00" },
    { C::Dirac, 0, 4, "BBCD" }, { C::Elf, 0, 4, "\x7F" "ELF" }, { C::Flac, 0, 4, "fLaC" }, { C::Ivf, 0, 4, "DKIF" }, { C::JavaClassFile, 0, 4, "\xCA\xFE\xBA\xBE" }, { C::Ebml, 0, 4, "\x1A\x45\xDF\xA3" },
    { C::Midi, 0, 4, "MThd" }, { C::MonkeysAudio, 0, 4, "MAC " }, { C::Ogg, 0, 4, "OggS" }, { C::PhotoshopDocument, 0, 4, "8BPS" }, { C::Riff, 0, 4, "RIFF" }, { C::TiffBigEndian, 0, 4, "MM\x00*" },
    { C::TiffLittleEndian, 0, 4, "II*\x00" }, { C::Utf32Text, 0, 4, "\xFF\xFE\x00\x00" }, { C::WavPack, 0, 4, "wvpk" }, { C::WindowsIcon, 0, 4, "\x00\x00\x01\x00" }, { C::Lzip, 0, 4, "LZIP" },
    { C::Zip, 0, 4, "PK\x03\x04" }, { C::Zip, 0, 4, "PK\x05\x06" }, { C::Zip, 0, 4, "PK\x07\x08" }, { C::Zstd, 0, 4, "\x28\xB5\x2F\xFD" }, { C::Bzip2, 0, 3, "BZh" }, { C::FlashVideo, 0, 3, "FLV" },
    { C::Gzip, 0, 3, "\x1F\x8B\x08" }, { C::Id3v2Tag, 0, 3, "ID3" }, { C::Utf8Text, 0, 3, "\xEF\xBB\xBF" }, { C::Ac3Frames, 0, 2, "\x0B\x77" }, { C::Jpeg, 0, 2, "\xFF\xD8" }, { C::Lha, 0, 2, "\x1F\xA0" },
    { C::Lzw, 0, 2, "\x1F\x9D" }, { C::PortableExecutable, 0, 2, "MZ" }, { C::Utf16Text, 0, 2, "\xFF\xFE" }, { C::WindowsBitmap, 0, 2, "BM" },
};
static constexpr unsigned sigCount = sizeof(sigs) / sizeof(sigs[0]);
// size of the word the library checks as a whole: a buffer which is shorter is not considered
static C expected(const std::string &b)
{
    if (b.size() < 2) return C::Unknown;
    // only 0, 2, 4, or 8 bytes of short buffers are considered
    const std::size_t considered = b.size() >= 8 ? b.size() : b.size() >= 4 ? 4 : 2;
    for (const auto &s : sigs) {
        if (s.offset + s.length > considered) {
            continue;
        }
        if (std::memcmp(b.data() + s.offset, s.bytes, s.length)) continue;
        if (s.format != C::Riff) return s.format;
        if (b.size() >= 16 && !std::memcmp(b.data() + 8, "AVI LIST", 8)) return C::RiffAvi;
        if (b.size() >= 12 && !std::memcmp(b.data() + 8, "WAVE", 4)) return C::RiffWave;
        return C::Riff;
    }
    const unsigned w = static_cast<unsigned>(static_cast<unsigned char>(b[0])) << 8 | static_cast<unsigned char>(b[1]);
    if ((w & 0xFFF6) == 0xFFF0) return C::Adts;
    if ((w & 0xFFE0) == 0xFFE0) return C::MpegAudioFrames;
    return C::Unknown;
}

// Every buffer beginning with a signature followed by arbitrary bytes
//@ quick=60 thorough=200 threads=2 reach=riff,text,other
SX_HARNESS(signatures)
{
    const auto &s = sigs[sx_choice(sigCount, "signature")];
    const auto extra = s.format == C::Riff ? sx_choice(3, "kind") : 0;
    std::string b = (s.offset ? sx_string(s.offset, "before") : std::string()) + std::string(s.bytes, s.length);
    if (s.format == C::Riff) b += sx_string(4, "size") + (extra == 0 ? sx_string(4, "type") : extra == 1 ? "WAVE" : "AVI ") + (extra == 2 ? std::string("LIST") : sx_string(4, "chunk"));
    else b += sx_string(16 - b.size(), "after");
    const auto want = expected(b);
    sx_assert(parseSignature(b) == want, "format of the signature");
    if (s.format == C::Riff) sx_reach("riff");
    else if (s.format == C::Utf16Text) sx_reach("text");
    else sx_reach("other");
}
// Every buffer at all
//@ quick=60 thorough=200 threads=4 reach=known,unknown
SX_HARNESS(anything)
{
    static const unsigned sizes[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16 };
    const auto n = sizes[sx_choice(12, "n")];
    const auto b = sx_string(n, "data");
    const auto got = parseSignature(std::string_view(b));
    const auto want = expected(b);
    sx_assert(got == want, "format");
    sx_reach(want == C::Unknown ? "unknown" : "known");
}

static std::string synchsafe(std::uint32_t v)
{
    return { static_cast<char>(v >> 21 & 127), static_cast<char>(v >> 14 & 127), static_cast<char>(v >> 7 & 127), static_cast<char>(v & 127) };
}
static std::string id3v2(unsigned padding, bool footer)
{
    const std::string frame("TIT2\0\0\0\x02\0\0\0A", 12);
    std::string s = std::string("ID3\x04\0", 5) + (footer ? '\x10' : '\0') + synchsafe(static_cast<std::uint32_t>(frame.size() + padding)) + frame + std::string(padding, '\0');
    if (footer) s += std::string("3DI\x04\0\x10", 6) + synchsafe(static_cast<std::uint32_t>(frame.size() + padding));
    return s;
}
static std::string apeBlock(unsigned tagSize, std::uint32_t flags) { return "APETAGEX" + le(2000, 4) + le(tagSize, 4) + le(1, 4) + le(flags, 4) + std::string(8, '\0'); }
static std::string apeItem() { return le(1, 4) + le(0, 4) + std::string("Year\0" "9", 6); }
static std::string ape(bool header, bool footer)
{
    const auto item = apeItem();
    const auto size = static_cast<unsigned>(item.size()) + (footer ? 32u : 0u);
    const std::uint32_t flags = (header ? 0x80000000u : 0u) | (footer ? 0u : 0x40000000u);
    return (header ? apeBlock(size, flags | 0x20000000u) : std::string()) + item + (footer ? apeBlock(size, flags) : std::string());
}
static std::string id3v1()
{
    std::string s("TAG");
    s.resize(128, '\0');
    s[3] = 'T';
    return s;
}
struct Opened {
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info;
    explicit Opened(const std::string &bytes)
        : info(std::string("f.bin"))
    {
        fs_put("f.bin", bytes);
        info.open(true);
        info.parseContainerFormat(diag, progress);
    }
};
// MPEG-1 layer 3, 128 kbit/s, 44.1 kHz
static std::string mp3(unsigned frames)
{
    std::string s;
    for (unsigned i = 0; i < frames; ++i) s += std::string("\xFF\xFB\x90\x40", 4) + std::string(413, '\x55');
    return s;
}

// Tags, zero bytes and junk in front of the actual file
//@ quick=80 thorough=200 threads=3 reach=id3,ape,zeros,junk
SX_HARNESS(prefix)
{
    static const C formats[] = { C::Flac, C::MpegAudioFrames, C::Adts, C::RiffWave, C::Ivf, C::Zip };
    const auto format = formats[sx_choice(6, "format")];
    std::string body = format == C::Flac ? "fLaC" : format == C::MpegAudioFrames ? "\xFF\xFB\x90\x40" : format == C::Adts ? "\xFF\xF1\x50\x80" : format == C::RiffWave ? "RIFF\1\2\3\4WAVE" : format == C::Ivf ? "DKIF" : "PK\3\4";
    body += sx_string(2, "rest") + std::string(40, '\x41');
    std::string file;
    unsigned tags = 0, apes = 0;
    std::size_t padding = 0, junk = 0;
    for (unsigned i = 0, n = sx_choice(3 + SX_THOROUGH, "parts"); i < n; ++i) {
        switch (sx_choice(6, "part")) {
        case 0:
            file += id3v2(0, false), ++tags;
            break;
        case 1:
            file += id3v2(300, false), ++tags;
            break;
        case 2:
            file += id3v2(0, true), ++tags;
            break;
        case 3:
            if (format != C::MpegAudioFrames) { // an APE tag in front of frames is junk to most players
                file += ape(true, sx_flag("footer")), ++apes;
                break;
            }
            [[fallthrough]];
        case 4: {
            static const unsigned lengths[] = { 1, 3, 4, 15, 16, 17, 500 };
            const auto m = lengths[sx_choice(7, "zeros")];
            file += std::string(m, '\0'), padding += m, junk += m;
            sx_reach("zeros");
            break;
        }
        case 5: {
            const auto m = 1 + sx_choice(3, "junk");
            file += std::string(m, '\x20'), padding += m, junk += m;
            sx_reach("junk");
            break;
        }
        }
    }
    Opened r(file + body);
    sx_assert(r.info.containerFormat() == format, "format");
    sx_assert(r.info.containerParsingStatus() == ParsingStatus::Ok, "status");
    sx_assert(r.info.containerOffset() == file.size(), "offset of the actual file");
    sx_assert(r.info.paddingSize() == padding, "skipped bytes are padding");
    unsigned warnings = 0, criticals = 0;
    for (const auto &m : r.diag) {
        warnings += m.level() == DiagLevel::Warning;
        criticals += m.level() == DiagLevel::Critical;
    }
    sx_assert(criticals == apes, "APE tags in front are reported");
    sx_assert(warnings == (tags > 1 ? 1u : 0u) + (junk ? 1u : 0u), "further ID3v2 tags and junk are reported");
    if (tags) sx_reach("id3");
    if (apes) sx_reach("ape");
}

// The search for a signature ends after 0x800 bytes
//@ quick=60 thorough=100 threads=2 reach=found,given_up
SX_HARNESS(limit)
{
    static const unsigned lengths[] = { 0x7F0, 0x7FE, 0x7FF, 0x800, 0x801, 0x900 };
    const auto n = lengths[sx_choice(6, "length")];
    const auto tag = sx_flag("tag") ? id3v2(5, false) : std::string();
    const auto zero = sx_flag("zero");
    Opened r(tag + std::string(n, zero ? '\0' : '\x20') + "fLaC" + std::string(50, '\x41'));
    const auto found = n < 0x800;
    sx_assert((r.info.containerFormat() == C::Flac) == found, "found only within limit");
    if (found) {
        sx_assert(r.info.containerOffset() == tag.size() + n && r.info.paddingSize() == n, "offset");
        sx_reach("found");
    } else {
        sx_assert(r.info.containerFormat() == C::Unknown && r.info.containerParsingStatus() == ParsingStatus::NotSupported, "given up");
        sx_assert(r.info.containerOffset() == tag.size(), "offset is the end of the tag");
        sx_reach("given_up");
    }
}

// TAR archives have the signature after the first name
//@ quick=40 thorough=100 threads=1 reach=tar,other
SX_HARNESS(tar)
{
    std::string file(512, '\x30');
    const auto sig = sx_choice(8, "signature");
    file.replace(0x101, 6, std::string("ustar\0", 6));
    if (sig < 6) file[0x101 + sig] = static_cast<char>(sx_val<std::uint8_t>("byte"));
    const auto same = sig >= 6 || file[0x101 + sig] == std::string("ustar\0", 6)[sig];
    if (sig == 7) file.resize(0x108);
    sx_assume(sig != 0 || (file[0x101] != '\xFF' && file[0x101] != '\0'));
    Opened r(file);
    if (same) {
        sx_assert(r.info.containerFormat() == C::Tar && r.info.containerOffset() == 0, "recognized as TAR");
        sx_reach("tar");
    } else {
        sx_assert(r.info.containerFormat() != C::Tar, "not recognized as TAR");
        sx_reach("other");
    }
}

// The actual media data is the file without tags
//@ quick=80 thorough=200 threads=2 reach=plain,all
SX_HARNESS(effective_size)
{
    const auto tag = sx_flag("ID3v2"), v1 = sx_flag("ID3v1");
    const auto apeKind = sx_choice(3, "APE");
    const auto frames = 2 + sx_choice(2, "frames") * 20;
    const auto front = tag ? id3v2(sx_choice(2, "padding") * 77, sx_flag("footer")) : std::string();
    const auto audio = mp3(frames);
    const auto back = (apeKind ? ape(apeKind == 2, true) : std::string()) + (v1 ? id3v1() : std::string());
    Opened r(front + audio + back);
    sx_assert(r.info.containerFormat() == C::MpegAudioFrames && r.info.containerOffset() == front.size(), "format and offset");
    if (sx_flag("tags first")) r.info.parseTags(r.diag, r.progress);
    r.info.parseTracks(r.diag, r.progress);
    r.info.parseTags(r.diag, r.progress);
    sx_assert(r.info.effectiveSize() == audio.size(), "effective size");
    sx_assert(r.info.hasId3v1Tag() == v1 && r.info.id3v2Tags().size() == (tag ? 1u : 0u), "tags");
    sx_assert(r.info.trackCount() == 1 && r.info.tracksParsingStatus() == ParsingStatus::Ok, "one track");
    const auto &t = *r.info.tracks().front();
    sx_assert(t.size() == audio.size() && t.bitrate() == 128.0, "size and bitrate of the track");
    const auto ticks = r.info.duration().totalTicks(), want = static_cast<std::int64_t>(audio.size()) * 625; // 16000 bytes per second
    sx_assert(ticks >= want - 1 && ticks <= want + 1, "duration");
    sx_assert(hasWarning(r.diag) == (apeKind != 0), "only APE tag reported");
    sx_reach(tag && v1 && apeKind ? "all" : "plain");
}
// Absurd sizes of tags
//@ quick=60 thorough=200 threads=2 reach=valid
SX_HARNESS(absurd_sizes)
{
    const auto kind = sx_choice(3, "kind");
    const auto audio = mp3(1 + sx_choice(2, "frames"));
    const auto base = static_cast<std::uint32_t>(audio.size());
    const std::uint32_t sizes[] = { 0, 1, 31, 32, 33, 46, 64, base - 1, base, base + 1, base + 46, base + 47, base + 78, base + 79, base + 110, base + 128, base + 200, 0xFFFFF, 0x0FFFFFFF, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFDFu, 0xFFFFFFE0u, 0xFFFFFFFFu };
    const auto size = sizes[sx_choice(sizeof(sizes) / sizeof(sizes[0]), "size")];
    std::string front, back;
    if (kind == 0) {
        front = id3v2(100, sx_flag("footer"));
        front.replace(6, 4, synchsafe(size));
    } else {
        back = ape(kind == 2, true);
        back.replace(back.size() - 20, 4, le(size, 4));
    }
    const auto file = front + audio + back + (sx_flag("ID3v1") ? id3v1() : std::string());
    Opened r(file);
    try {
        r.info.parseTracks(r.diag, r.progress);
    } catch (const std::ios_base::failure &) {
        return; // end of file exceeded
    }
    r.info.parseTags(r.diag, r.progress);
    sx_assert(r.info.effectiveSize() <= file.size(), "effective size does not exceed the file");
    sx_assert(r.info.containerFormat() == C::MpegAudioFrames || r.info.effectiveSize() + r.info.containerOffset() <= file.size() || r.info.effectiveSize() == 0, "effective size is within the file");
    sx_assert(r.info.duration().totalTicks() >= 0 && r.info.duration().totalSeconds() < 100.0, "duration");
    sx_reach("valid");
}

// Names, abbreviations and MIME types
//@ quick=30 thorough=60 threads=1 reach=names
SX_HARNESS(names)
{
    struct Names {
        C format;
        const char *abbreviation, *mime;
    };
    static const Names table[] = { { C::Ac3Frames, "ac3", "audio/ac3" }, { C::Asf, "asf", "video/x-ms-asf" }, { C::Flac, "flac", "audio/flac" }, { C::FlashVideo, "flv", "video/x-flv" }, { C::Gif87a, "gif", "image/gif" },
        { C::Gif89a, "gif", "image/gif" }, { C::Jpeg, "jpeg", "image/jpeg" }, { C::Png, "png", "image/png" }, { C::Midi, "mid", "audio/midi" }, { C::Gzip, "gz", "application/gzip" }, { C::QuickTime, "mov", "video/quicktime" },
        { C::Zip, "zip", "application/zip" }, { C::SevenZ, "7z", "application/x-7z-compressed" }, { C::Xz, "xz", "application/x-xz" }, { C::WindowsBitmap, "bmp", "image/bmp" }, { C::Zstd, "zst", "application/zstd" },
        { C::RiffWave, "wav", nullptr }, { C::RiffAvi, "avi", nullptr }, { C::Aiff, "aiff", nullptr }, { C::MonkeysAudio, "ape", nullptr }, { C::WavPack, "wv", nullptr }, { C::Ivf, "ivf", nullptr }, { C::Tar, "tar", nullptr }, { C::Rar, "rar", nullptr } };
    const auto &n = table[sx_choice(sizeof(table) / sizeof(table[0]), "format")];
    sx_assert_eq(containerFormatAbbreviation(n.format, MediaType::Unknown, 0), n.abbreviation, "abbreviation");
    if (n.mime) sx_assert_eq(containerMimeType(n.format, MediaType::Unknown), n.mime, "MIME type");
    sx_assert(containerFormatName(n.format) != "unknown" && !containerFormatName(n.format).empty(), "name");
    sx_assert_eq(containerFormatAbbreviation(C::Mp4, MediaType::Audio, 0), "m4a", "MP4 audio");
    sx_assert_eq(containerFormatAbbreviation(C::Mp4, MediaType::Video, 0), "mp4", "MP4 video");
    sx_assert_eq(containerFormatAbbreviation(C::Matroska, MediaType::Audio, 0), "mka", "Matroska audio");
    sx_assert_eq(containerFormatAbbreviation(C::Matroska, MediaType::Video, 0), "mkv", "Matroska video");
    sx_assert_eq(containerFormatAbbreviation(C::MpegAudioFrames, MediaType::Audio, 1), "mp1", "MP1");
    sx_assert_eq(containerFormatAbbreviation(C::MpegAudioFrames, MediaType::Audio, 2), "mp2", "MP2");
    sx_assert_eq(containerFormatAbbreviation(C::MpegAudioFrames, MediaType::Audio, 3), "mp3", "MP3");
    sx_assert_eq(containerMimeType(C::Mp4, MediaType::Audio), "audio/mp4", "MP4 audio");
    sx_assert_eq(containerMimeType(C::Mp4, MediaType::Video), "video/mp4", "MP4 video");
    sx_assert_eq(containerMimeType(C::Matroska, MediaType::Audio), "audio/x-matroska", "Matroska audio");
    sx_assert_eq(containerMimeType(C::MpegAudioFrames, MediaType::Audio), "audio/mpeg", "MPEG audio");
    sx_reach("names");
}
