// Properties of streams determined from frame and stream headers as specified (MPEG audio, ADTS, IVF, RIFF/WAVE, AVC configuration).
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "txt.h"
#include <cstring>
#include <tagparser/adts/adtsstream.h>
#include <tagparser/avc/avcconfiguration.h>
#include <tagparser/exceptions.h>
#include <tagparser/ivf/ivfstream.h>
#include <tagparser/mp4/mp4track.h>
#include <tagparser/mpegaudio/mpegaudioframe.h>
#include <tagparser/mpegaudio/mpegaudioframestream.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/wav/waveaudiostream.h>
#include <c++utilities/io/binaryreader.h>
#include <c++utilities/io/nativefilestream.h>
using namespace TagParser;
using namespace CppUtilities;
// a file in which one can seek beyond the end like in real files
struct File : NativeFileStream {
    explicit File(const std::string &bytes)
    {
        fs_put("f.bin", bytes);
        exceptions(std::ios_base::failbit | std::ios_base::badbit);
        open("f.bin", std::ios_base::in | std::ios_base::binary);
    }
};
//! bound: all valid MPEG audio and ADTS headers; Xing headers with all combinations of fields; IVF headers with arbitrary fields; WAVE files with up to four segments; AVC configurations with up to 31 SPS and two PPS entries; damaged headers of up to 24 arbitrary bytes
//! outside: VBRI headers, files ending within the first MPEG audio frame, duration of WAVE files with compressed audio other than MPEG audio, codes of more than 15 bits within SPS entries

// ---- MPEG audio (ISO/IEC 11172-3, 13818-3)
static unsigned refBitrate(unsigned versionBits, unsigned layer, unsigned index)
{
    static const unsigned short v1l1[] = { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 0 };
    static const unsigned short v1l2[] = { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 0 };
    static const unsigned short v1l3[] = { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0 };
    static const unsigned short v2l1[] = { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256, 0 };
    static const unsigned short v2l23[] = { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0 };
    if (versionBits == 3) return layer == 1 ? v1l1[index] : layer == 2 ? v1l2[index] : v1l3[index];
    return layer == 1 ? v2l1[index] : v2l23[index];
}
static unsigned refFrequency(unsigned versionBits, unsigned index)
{
    static const unsigned freq[] = { 44100, 48000, 32000, 0 };
    return freq[index] >> (versionBits == 3 ? 0 : versionBits == 2 ? 1 : 2);
}
static unsigned refSamples(unsigned versionBits, unsigned layer) { return layer == 1 ? 384 : layer == 2 || versionBits == 3 ? 1152 : 576; }
static unsigned refSize(unsigned versionBits, unsigned layer, unsigned rate, unsigned freq, unsigned padding)
{
    if (!rate || !freq) return 0;
    return layer == 1 ? (12 * rate * 1000 / freq + padding) * 4 : refSamples(versionBits, layer) / 8 * rate * 1000 / freq + padding;
}
struct Header {
    unsigned versionBits, layer, crcAbsent, bitrateIndex, freqIndex, padding, mode, rest, rate, freq, samples, size;
    std::string bytes;
};
static Header mpegHeader(bool valid = true)
{
    Header h;
    h.versionBits = sx_choice(3, "version");
    if (h.versionBits) ++h.versionBits; // 1 is reserved
    h.layer = sx_choice(3, "layer") + 1;
    h.crcAbsent = sx_range<std::uint8_t>(0, 1, "crc");
    h.bitrateIndex = static_cast<unsigned>(sx_concretize(sx_range<std::uint8_t>(valid ? 1 : 0, valid ? 14 : 15, "bitrate")));
    h.freqIndex = static_cast<unsigned>(sx_concretize(sx_range<std::uint8_t>(0, valid ? 2 : 3, "frequency")));
    h.padding = sx_range<std::uint8_t>(0, 1, "padding");
    h.mode = sx_range<std::uint8_t>(0, 3, "mode");
    const auto priv = sx_range<std::uint8_t>(0, 1, "private");
    h.rest = sx_range<std::uint8_t>(0, 63, "rest");
    h.rate = refBitrate(h.versionBits, h.layer, h.bitrateIndex);
    h.freq = refFrequency(h.versionBits, h.freqIndex);
    h.samples = refSamples(h.versionBits, h.layer);
    h.size = refSize(h.versionBits, h.layer, h.rate, h.freq, h.padding);
    h.bytes.push_back('\xFF');
    h.bytes.push_back(static_cast<char>(0xE0 | h.versionBits << 3 | (4 - h.layer) << 1 | h.crcAbsent));
    h.bytes.push_back(static_cast<char>(h.bitrateIndex << 4 | h.freqIndex << 2 | h.padding << 1 | priv));
    h.bytes.push_back(static_cast<char>(h.mode << 6 | h.rest));
    return h;
}
static bool near(double a, double b) { return a >= b * 0.999999 - 1e-6 && a <= b * 1.000001 + 1e-6; }
static bool nearTicks(TimeSpan t, double seconds)
{
    const auto ticks = static_cast<std::int64_t>(seconds * 1e7);
    return t.totalTicks() >= ticks - ticks / 1000000 - 20 && t.totalTicks() <= ticks + ticks / 1000000 + 20;
}
static void expectHeader(const MpegAudioFrame &f, const Header &h)
{
    sx_assert(f.isValid(), "valid");
    sx_assert(f.mpegVersion() == (h.versionBits == 3 ? 1.0 : h.versionBits == 2 ? 2.0 : 2.5), "version");
    sx_assert(f.layer() == static_cast<int>(h.layer), "layer");
    sx_assert(f.bitrate() == h.rate, "bitrate");
    sx_assert(f.samplingFrequency() == h.freq, "sampling frequency");
    sx_assert(f.paddingSize() == (h.padding ? (h.layer == 1 ? 4u : 1u) : 0u), "padding");
    sx_assert(f.channelMode() == (h.mode == 0 ? MpegChannelMode::Stereo : h.mode == 1 ? MpegChannelMode::JointStereo : h.mode == 2 ? MpegChannelMode::DualChannel : MpegChannelMode::SingleChannel), "channel mode");
    sx_assert((f.isProtectedByCrc() == !h.crcAbsent) & (f.hasCopyright() == ((h.rest & 8) != 0)) & (f.isOriginal() == ((h.rest & 4) != 0)), "protection, copyright and original");
    sx_assert(f.sampleCount() == h.samples, "sample count");
    sx_assert(f.size() == h.size, "size");
}

//@ quick=90 thorough=200 threads=4 reach=frame
SX_HARNESS(mpeg_frame)
{
    const auto h = mpegHeader(false);
    Mem s(h.bytes + std::string(100, '\0'));
    BinaryReader reader(&s);
    Diagnostics diag;
    MpegAudioFrame f;
    f.parseHeader(reader, diag);
    sx_assert(diag.empty(), "no problems reported");
    expectHeader(f, h);
    sx_assert(!f.isXingHeaderAvailable() && !f.isXingFramefieldPresent() && !f.isXingBytesfieldPresent(), "no Xing header");
    sx_reach("frame");
}

static unsigned xingOffset(const Header &h) { return h.versionBits == 3 ? (h.mode == 3 ? 21 : 36) : (h.mode == 3 ? 13 : 21); }
static Header fixedHeader(unsigned which)
{
    // version bits, layer, bitrate index, frequency index, padding, mode
    static const unsigned table[][6] = { { 3, 3, 9, 0, 1, 1 }, { 3, 3, 5, 1, 0, 3 }, { 2, 3, 8, 0, 0, 0 }, { 2, 3, 8, 2, 1, 3 }, { 0, 3, 14, 1, 0, 2 }, { 0, 3, 9, 0, 0, 3 }, { 3, 2, 8, 2, 0, 0 }, { 3, 1, 5, 0, 1, 0 } };
    const auto *t = table[which];
    Header h;
    h.versionBits = t[0], h.layer = t[1], h.crcAbsent = 1, h.bitrateIndex = t[2], h.freqIndex = t[3], h.padding = t[4], h.mode = t[5], h.rest = 0;
    h.rate = refBitrate(h.versionBits, h.layer, h.bitrateIndex);
    h.freq = refFrequency(h.versionBits, h.freqIndex);
    h.samples = refSamples(h.versionBits, h.layer);
    h.size = refSize(h.versionBits, h.layer, h.rate, h.freq, h.padding);
    h.bytes = { '\xFF', static_cast<char>(0xE0 | h.versionBits << 3 | (4 - h.layer) << 1 | 1), static_cast<char>(h.bitrateIndex << 4 | h.freqIndex << 2 | h.padding << 1), static_cast<char>(h.mode << 6) };
    return h;
}
// The Xing header of a VBR file with all combinations of fields
//@ quick=60 thorough=200 threads=2 reach=xing,info
SX_HARNESS(mpeg_xing)
{
    const auto h = fixedHeader(sx_choice(6, "header"));
    const auto info = sx_flag("info");
    const auto flags = sx_choice(16, "flags");
    const auto frames = sx_string(4, "frames"), bytes = sx_string(4, "bytes"), quality = sx_string(4, "quality"), toc = sx_string(2, "toc");
    std::string frame = h.bytes + std::string(xingOffset(h) - 4, '\0') + (info ? "Info" : "Xing") + be(flags, 4);
    if (flags & 1) frame += frames;
    if (flags & 2) frame += bytes;
    if (flags & 4) frame += toc + std::string(98, '\x40');
    if (flags & 8) frame += quality;
    frame.resize(std::max<std::size_t>(frame.size(), h.size));
    Mem s(frame);
    BinaryReader reader(&s);
    Diagnostics diag;
    MpegAudioFrame f;
    f.parseHeader(reader, diag);
    expectHeader(f, h);
    sx_assert(f.isXingHeaderAvailable(), "Xing header present");
    sx_assert(f.isXingFramefieldPresent() == ((flags & 1) != 0) && f.isXingBytesfieldPresent() == ((flags & 2) != 0), "presence of number of frames and bytes");
    sx_assert(f.isXingTocFieldPresent() == ((flags & 4) != 0) && f.isXingQualityIndicatorFieldPresent() == ((flags & 8) != 0), "presence of TOC and quality");
    sx_assert(static_cast<unsigned>(f.xingHeaderFlags()) == flags, "flags");
    if (flags & 1) sx_assert(f.xingFrameCount() == rdbe(frames, 0, 4), "number of frames");
    if (flags & 2) sx_assert(f.xingBytesfield() == rdbe(bytes, 0, 4), "number of bytes");
    if (flags & 8) sx_assert(f.xingQualityIndicator() == rdbe(quality, 0, 4), "quality");
    sx_reach(info ? "info" : "xing");
}

// Data of an ordinary frame where a Xing header might be located
//@ quick=40 thorough=120 threads=2 reach=data
SX_HARNESS(mpeg_data)
{
    const auto h = fixedHeader(sx_choice(6, "header"));
    const auto data = sx_string(4, "data");
    sx_assume(data != "Xing" && data != "Info");
    Mem s(h.bytes + std::string(xingOffset(h) - 4, '\0') + data + be(0xF, 4) + std::string(h.size, '\0'));
    BinaryReader reader(&s);
    Diagnostics diag;
    MpegAudioFrame f;
    f.parseHeader(reader, diag);
    expectHeader(f, h);
    sx_assert(!f.isXingHeaderAvailable() && !f.isXingFramefieldPresent() && !f.isXingBytesfieldPresent() && !f.isXingTocFieldPresent() && !f.isXingQualityIndicatorFieldPresent(), "no Xing header");
    sx_reach("data");
}

// Track information about MPEG audio with constant and variable bitrate and junk in front
//@ quick=60 thorough=200 threads=2 reach=cbr,vbr,junk
SX_HARNESS(mpeg_stream)
{
    const auto h = fixedHeader(sx_choice(8, "header"));
    const auto junk = sx_choice(4, "junk");
    const auto vbr = h.layer == 3 && sx_flag("vbr");
    const auto size = static_cast<std::uint64_t>(sx_concretize(sx_choice(3, "size") * 1234567u + 5000u));
    const auto count = vbr ? static_cast<std::uint32_t>(sx_range<std::uint8_t>(0, 255, "frames")) : 0u;
    const auto big = vbr && sx_flag("big");
    const auto frames = big ? count << 24 | 0x345678u : count;
    std::string file = (junk ? sx_string(1, "junk byte") : std::string()) + std::string(junk ? junk - 1 : 0, '\x12');
    if (junk) sx_assume(static_cast<unsigned char>(file[0]) != 0xFF);
    file += h.bytes;
    if (vbr) file += std::string(xingOffset(h) - 4, '\0') + "Xing" + be(1, 4) + be(frames, 4);
    file += std::string(h.size + 200, '\0');
    Mem s(file);
    MpegAudioFrameStream stream(s, 0);
    stream.setSize(size);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    stream.parseHeader(diag, progress);
    sx_assert(stream.isHeaderValid(), "header valid");
    sx_assert(hasWarning(diag) == (junk != 0), "junk reported");
    sx_assert(stream.type() == TrackType::MpegAudioFrameStream && stream.mediaType() == MediaType::Audio, "type");
    sx_assert(stream.format() == MediaFormat(GeneralMediaFormat::Mpeg1Audio, static_cast<unsigned char>(h.layer)), "format");
    sx_assert(stream.version() == (h.versionBits == 3 ? 1.0 : h.versionBits == 2 ? 2.0 : 2.5), "version");
    sx_assert(stream.channelCount() == (h.mode == 3 ? 1u : 2u), "channels");
    sx_assert(stream.samplingFrequency() == h.freq, "sampling frequency");
    sx_assert(stream.size() == size, "size");
    if (vbr && frames) {
        const auto seconds = static_cast<double>(frames) * h.samples / h.freq;
        sx_assert(nearTicks(stream.duration(), seconds), "duration of VBR");
        sx_assert(near(stream.bitrate() * seconds, static_cast<double>(size) / 125.0), "average bitrate of VBR");
        sx_reach("vbr");
    } else {
        sx_assert(stream.bitrate() == h.rate, "bitrate of CBR");
        sx_assert(nearTicks(stream.duration(), static_cast<double>(size) / (h.rate * 125.0)), "duration of CBR");
        sx_reach("cbr");
    }
    if (junk) sx_reach("junk");
}

// ---- ADTS (ISO/IEC 13818-7, 14496-3)
//@ quick=60 thorough=200 threads=2 reach=crc,nocrc,short
SX_HARNESS(adts)
{
    static const unsigned freq[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0, 0 };
    static const unsigned channels[] = { 0, 1, 2, 3, 4, 5, 6, 8 };
    const auto mpeg2 = sx_range<std::uint8_t>(0, 1, "mpeg2");
    const auto noCrc = sx_choice(2, "no crc");
    const auto profile = static_cast<unsigned>(sx_choice(4, "profile")), freqIndex = static_cast<unsigned>(sx_range<std::uint8_t>(0, 15, "frequency")), config = static_cast<unsigned>(sx_range<std::uint8_t>(0, 7, "channels"));
    const auto flags = sx_range<std::uint8_t>(0, 31, "flags");
    const auto length = sx_range<std::uint16_t>(0, 0x1FFF, "length"), fullness = sx_range<std::uint16_t>(0, 0x7FF, "fullness");
    const auto blocks = sx_range<std::uint8_t>(0, 3, "blocks");
    const auto crc = sx_string(2, "crc");
    const auto v = std::uint64_t(profile) << 38 | std::uint64_t(freqIndex) << 34 | std::uint64_t(flags >> 4) << 33 | std::uint64_t(config) << 30 | std::uint64_t(flags & 15) << 26 | std::uint64_t(length) << 13 | std::uint64_t(fullness) << 2 | blocks;
    std::string bytes{ '\xFF', static_cast<char>(0xF0 | mpeg2 << 3 | noCrc) };
    bytes += be(v, 5);
    if (!noCrc) bytes += crc;
    const unsigned headerSize = noCrc ? 7 : 9;
    Mem s(std::string(3, '\x11') + bytes);
    if (length < headerSize) {
        s.seekg(3);
        BinaryReader reader(&s);
        AdtsFrame f;
        bool failed = false;
        try { f.parseHeader(reader); } catch (const InvalidDataException &) { failed = true; }
        sx_assert(failed && !f.isValid(), "frame smaller than its header is rejected");
        sx_reach("short");
        return;
    }
    {
        s.seekg(3);
        BinaryReader reader(&s);
        AdtsFrame f;
        f.parseHeader(reader);
        sx_assert(f.isValid() && f.isMpeg4() == !mpeg2 && f.hasCrc() == !noCrc, "flags");
        sx_assert(f.mpeg4AudioObjectId() == profile + 1 && f.mpeg4SamplingFrequencyIndex() == freqIndex && f.mpeg4ChannelConfig() == config, "format");
        sx_assert(f.totalSize() == length && f.headerSize() == headerSize && f.dataSize() == length - headerSize, "sizes");
        sx_assert(f.bufferFullness() == fullness && f.frameCount() == blocks + 1, "fullness and number of frames");
        if (!noCrc) sx_assert(f.crc() == rdbe(crc, 0, 2), "checksum");
    }
    AdtsStream stream(s, 3);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    stream.parseHeader(diag, progress);
    sx_assert(stream.isHeaderValid() && stream.type() == TrackType::AdtsStream && stream.mediaType() == MediaType::Audio, "type");
    sx_assert(stream.format().general == GeneralMediaFormat::Aac, "format is AAC");
    static const unsigned char subs[] = { SubFormats::AacMpeg4MainProfile, SubFormats::AacMpeg4LowComplexityProfile, SubFormats::AacMpeg4ScalableSamplingRateProfile, SubFormats::AacMpeg4LongTermPrediction };
    sx_assert(stream.format().sub == subs[profile], "profile");
    sx_assert(stream.samplingFrequency() == freq[freqIndex], "sampling frequency");
    sx_assert(stream.channelCount() == channels[config] && stream.channelConfig() == config, "channels");
    sx_reach(noCrc ? "nocrc" : "crc");
}

// ---- IVF
//@ quick=40 thorough=120 threads=2 reach=ivf,unknown_rate,huge
SX_HARNESS(ivf)
{
    static const struct { unsigned rate, scale; } bases[] = { { 30, 1 }, { 30000, 1001 }, { 25, 2 }, { 0, 1 }, { 24, 0 }, { 0, 0 }, { 1, 0xFFFFFFFFu }, { 0xFFFFFFFFu, 1 } };
    const auto width = sx_val<std::uint16_t>("width"), height = sx_val<std::uint16_t>("height");
    const auto &base = bases[sx_choice(8, "time base")];
    static const unsigned counts[] = { 0, 1, 299, 0xFFFFFFFFu };
    const auto which = sx_choice(5, "number of frames");
    const auto frames = which < 4 ? counts[which] : sx_val<std::uint32_t>("frames");
    const auto offset = sx_choice(2, "offset") * 5;
    const auto version = sx_choice(2, "version");
    std::string file(offset, '\x22');
    file += "DKIF" + le(version, 2) + le(32, 2) + "VP90" + le(width, 2) + le(height, 2) + le(base.rate, 4) + le(base.scale, 4) + le(frames, 4) + std::string(4, '\0');
    file += le(4, 4) + le(0, 8) + "abcd";
    Mem s(file);
    IvfStream stream(s, offset);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    stream.parseHeader(diag, progress);
    sx_assert(stream.isHeaderValid() && stream.type() == TrackType::IvfStream && stream.mediaType() == MediaType::Video, "type");
    sx_assert(hasWarning(diag) == (version != 0), "unknown version reported");
    sx_assert(stream.version() == version && stream.formatId() == "VP90" && stream.format().general == GeneralMediaFormat::Vp9, "format");
    sx_assert(stream.pixelSize().width() == width && stream.pixelSize().height() == height, "size");
    sx_assert(stream.sampleCount() == frames, "number of frames");
    sx_assert(static_cast<std::size_t>(s.tellg()) == offset + 32, "positioned at the first frame");
    if (base.rate && base.scale) {
        if (which == 4) return;
        if (base.scale == 0xFFFFFFFFu) {
            sx_assert(stream.duration().totalTicks() >= 0, "no overflow of duration");
            sx_reach("huge");
            return;
        }
        sx_assert(stream.fps() == base.rate / base.scale, "frames per second");
        const auto ticks = stream.duration().totalTicks();
        // |ticks/1e7 - frames*scale/rate| is small
        const auto expected = static_cast<double>(frames) * (static_cast<double>(base.scale) / base.rate) * 1e7, actual = static_cast<double>(ticks);
        sx_assert(actual >= expected * 0.99999 - 10.0 && actual <= expected * 1.00001 + 10.0, "duration");
        sx_reach("ivf");
    } else {
        sx_assert(stream.duration().isNull() || !base.scale, "no duration");
        sx_assert(base.rate || stream.fps() == 0, "no frame rate");
        sx_reach("unknown_rate");
    }
}

// ---- RIFF/WAVE
static std::string chunk(const char *id, const std::string &data) { return id + le(data.size(), 4) + data + (data.size() % 2 ? std::string(1, '\0') : std::string()); }
//@ quick=60 thorough=200 threads=2 reach=pcm,float,extensible,other,order,zero
SX_HARNESS(wave)
{
    const auto kind = sx_choice(5, "kind"); // PCM, float, extensible (PCM), extensible (float), ADPCM
    const auto layout = sx_choice(4, "layout");
    const auto arbitrary = sx_flag("arbitrary");
    const auto set = arbitrary ? 0 : sx_choice(3, "set");
    const std::uint16_t channels = arbitrary ? sx_val<std::uint16_t>("channels") : set == 0 ? 2 : set == 1 ? 1 : 0xFFFF;
    static const unsigned rates[] = { 0, 8000, 44100, 0xFFFFFFFFu };
    const auto rate = rates[sx_choice(4, "rate")];
    const auto bytesPerSecond = sx_val<std::uint32_t>("bytes per second");
    static const unsigned aligns[] = { 0, 1, 4, 6, 0xFFFF };
    const auto align = aligns[sx_choice(5, "align")];
    const std::uint16_t bits = arbitrary ? sx_val<std::uint16_t>("bits") : set == 0 ? 16 : set == 1 ? 8 : 0xFFFF;
    const auto size = arbitrary ? sx_val<std::uint32_t>("size") : set == 0 ? 44100u * 600 : set == 1 ? 77777u : 0xFFFFFFFFu; // denoted size
    static const unsigned tags[] = { 1, 3, 0xFFFE, 0xFFFE, 2 };
    std::string fmt = le(tags[kind], 2) + le(channels, 2) + le(rate, 4) + le(bytesPerSecond, 4) + le(align, 2) + le(bits, 2);
    if (kind == 2 || kind == 3) fmt += le(22, 2) + le(bits, 2) + le(3, 4) + le(kind == 2 ? 1 : 3, 2) + std::string("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xAA\x00\x38\x9B\x71", 14);
    if (kind == 4) fmt += le(3, 2) + "xyz"; // odd size
    std::string body = "WAVE";
    if (layout & 1) body += chunk("LIST", "data\5");
    body += chunk("fmt ", fmt);
    if (layout & 2) body += chunk("fact", "abc");
    std::string file(layout == 3 ? 7 : 0, '\x33');
    const auto offset = file.size();
    file += "RIFF" + le(body.size() + 8 + size, 4) + body + "data" + le(size, 4) + std::string(8, '\0');
    File s(file);
    WaveAudioStream stream(s, offset);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    stream.parseHeader(diag, progress);
    sx_assert(stream.isHeaderValid() && stream.type() == TrackType::WaveAudioStream && stream.mediaType() == MediaType::Audio, "type");
    sx_assert(!hasWarning(diag), "no problems reported");
    if (kind == 4) {
        sx_assert(stream.format().general == GeneralMediaFormat::Unknown && stream.formatId() == "2", "unknown format");
        sx_reach("other");
    } else {
        sx_assert(stream.format() == MediaFormat(GeneralMediaFormat::Pcm, kind & 1 ? SubFormats::PcmFloatIeee : SubFormats::PcmIntLe), "format");
        sx_reach(kind == 0 ? "pcm" : kind == 1 ? "float" : "extensible");
    }
    sx_assert(stream.channelCount() == channels && stream.samplingFrequency() == rate && stream.bitsPerSample() == bits, "channels, frequency and bits");
    sx_assert(stream.size() == size, "size of data");
    if (!arbitrary) sx_assert(near(stream.bitrate() * 1000.0, static_cast<double>(bits) * channels * rate), "bitrate in kbit/s");
    if (!align || !rate) {
        sx_assert(stream.duration().isNull(), "no duration");
        sx_reach("zero");
        return;
    }
    sx_assert(stream.sampleCount() == size / align, "number of samples");
    if (arbitrary) return;
    const auto expected = static_cast<double>(size / align) * (1e7 / rate), actual = static_cast<double>(stream.duration().totalTicks());
    sx_assert(actual >= expected * 0.99999 - 10.0 && actual <= expected * 1.00001 + 10.0, "duration");
    if (layout) sx_reach("order");
}

//@ quick=40 thorough=120 threads=2 reach=cbr,vbr,nodata
SX_HARNESS(wave_mpeg)
{
    const auto h = fixedHeader(sx_choice(6, "header"));
    const auto vbr = sx_flag("vbr");
    const auto frames = vbr ? sx_range<std::uint8_t>(0, 255, "frames") : 0;
    std::string frame = h.bytes;
    if (vbr) frame += std::string(xingOffset(h) - 4, '\0') + "Xing" + be(1, 4) + be(frames, 4);
    frame += std::string(h.size, '\0');
    const auto fmt = le(0x55, 2) + le(9, 2) + le(1234, 4) + le(16000, 4) + le(1, 2) + le(0, 2) + le(12, 2) + std::string(12, '\1');
    const auto size = 1000000u;
    File s("RIFF" + le(1000100, 4) + "WAVE" + chunk("fmt ", fmt) + "data" + le(size, 4) + frame);
    WaveAudioStream stream(s, 0);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    stream.parseHeader(diag, progress);
    sx_assert(!hasWarning(diag) && stream.isHeaderValid(), "no problems reported");
    sx_assert(stream.format() == MediaFormat(GeneralMediaFormat::Mpeg1Audio, static_cast<unsigned char>(h.layer)), "format");
    sx_assert(stream.channelCount() == (h.mode == 3 ? 1u : 2u) && stream.samplingFrequency() == h.freq, "channels and frequency are those of the frame");
    if (frames) {
        const auto seconds = static_cast<double>(frames) * h.samples / h.freq;
        sx_assert(nearTicks(stream.duration(), seconds), "duration of VBR");
        sx_assert(near(stream.bitrate() * seconds, static_cast<double>(size) / 125.0), "average bitrate of VBR");
        sx_reach("vbr");
    } else {
        sx_assert(stream.bitrate() == h.rate, "bitrate of CBR");
        sx_assert(nearTicks(stream.duration(), static_cast<double>(size) / (h.rate * 125.0)), "duration of CBR");
        sx_reach("cbr");
    }
    sx_reach("nodata");
}

// ---- AVC configuration (ISO/IEC 14496-15, 14496-10)
struct Bits {
    std::string bytes;
    unsigned used = 8;
    void bit(unsigned b)
    {
        if (used == 8) bytes.push_back('\0'), used = 0;
        bytes.back() = static_cast<char>(static_cast<unsigned char>(bytes.back()) | (b & 1) << (7 - used++));
    }
    void bits(std::uint64_t v, unsigned n)
    {
        while (n--) bit(static_cast<unsigned>(v >> n) & 1);
    }
    // length is the number of bits following the leading zeros and one, the value is 2^length - 1 + suffix
    void code(unsigned length, std::uint64_t suffix)
    {
        bits(0, length);
        bit(1);
        bits(suffix, length);
    }
    void ue(std::uint64_t v)
    {
        unsigned n = 0;
        while ((v + 1) >> (n + 1)) ++n;
        code(n, v + 1 - (1ull << n));
    }
    void se(int v) { ue(v > 0 ? static_cast<unsigned>(2 * v - 1) : static_cast<unsigned>(-2 * v)); }
    std::string nal()
    {
        bit(1); // stop bit
        // emulation prevention as the bits are mostly concrete this depends on concrete values only, see callers
        std::string res;
        unsigned zeros = 0;
        for (const auto c : bytes) {
            if (zeros >= 2 && static_cast<unsigned char>(c) <= 3) res.push_back(3), zeros = 0;
            res.push_back(c);
            zeros = c == 0 ? zeros + 1 : 0;
        }
        return res;
    }
};
static std::string avcc(const std::vector<std::string> &sps, const std::vector<std::string> &pps, unsigned lengthSize = 3)
{
    std::string s("\x01\x64\x00\x29", 4);
    s.push_back(static_cast<char>(0xFC | lengthSize));
    s.push_back(static_cast<char>(0xE0 | sps.size()));
    for (const auto &x : sps) s += be(x.size(), 2) + x;
    s.push_back(static_cast<char>(pps.size()));
    for (const auto &x : pps) s += be(x.size(), 2) + x;
    return s;
}
static std::string pps(unsigned id, unsigned spsId, unsigned order)
{
    Bits b;
    b.bits(0x68, 8);
    b.ue(id);
    b.ue(spsId);
    b.bit(1);
    b.bit(order);
    b.ue(0);
    return b.nal();
}
static std::string simpleSps(unsigned id, unsigned width, unsigned height)
{
    Bits b;
    b.bits(0x67, 8);
    b.bits(66, 8), b.bits(0xC0, 8), b.bits(30, 8);
    b.ue(id);
    b.ue(0), b.ue(2), b.ue(1), b.bit(0);
    b.ue(width - 1), b.ue(height - 1);
    b.bit(1), b.bit(1), b.bit(0), b.bit(0);
    return b.nal();
}
static AvcConfiguration parseAvcc(const std::string &bytes, Diagnostics &diag, const std::string &trailing = "\x44\x44")
{
    Mem s(bytes + trailing);
    BinaryReader reader(&s);
    AvcConfiguration c;
    c.parse(reader, bytes.size(), diag);
    return c;
}

// Values of an SPS entry
//@ quick=80 thorough=200 threads=3 reach=high,baseline,cropped,scaling,interlaced
SX_HARNESS(avc_sps)
{
    Bits b;
    static const unsigned profiles[] = { 66, 77, 100, 110, 122, 244, 44 };
    const auto profile = profiles[sx_choice(7, "profile")];
    const auto level = sx_val<std::uint8_t>("level"), constraints = sx_val<std::uint8_t>("constraints");
    sx_assume(constraints > 3 && level > 3);
    b.bits(0x67, 8), b.bits(profile, 8), b.bits(constraints, 8), b.bits(level, 8);
    const auto id = sx_range<std::uint8_t>(0, 1, "id");
    b.code(1, id); // 1..2
    unsigned chroma = 1;
    const auto scaling = profile >= 100 || profile == 44 ? sx_choice(3, "scaling") : 0;
    if (profile >= 100 || profile == 44) {
        chroma = sx_choice(4, "chroma");
        b.ue(chroma);
        if (chroma == 3) b.bit(0);
        b.ue(2), b.ue(0), b.bit(0), b.bit(scaling != 0);
        if (scaling) {
            for (unsigned i = 0; i < (chroma == 3 ? 12u : 8u); ++i) {
                const auto present = scaling == 2 || i == 0 || i == 6;
                b.bit(present);
                if (!present) continue;
                if (scaling == 2 && i % 2) {
                    b.se(-8); // default list
                    continue;
                }
                int last = 8;
                for (unsigned j = 0; j < (i < 6 ? 16u : 64u); ++j) {
                    if (i == 0 && j == 3) {
                        b.se(-last); // remaining values are as last value
                        break;
                    }
                    b.se(j % 5 == 1 ? 3 : j % 7 == 2 ? -2 : 0);
                    last += j % 5 == 1 ? 3 : j % 7 == 2 ? -2 : 0;
                }
            }
            sx_reach("scaling");
        }
        sx_reach("high");
    } else {
        sx_reach("baseline");
    }
    const auto frameNum = sx_range<std::uint8_t>(0, 3, "frame num");
    b.code(2, frameNum); // 3..6
    const auto orderType = sx_choice(3, "order type");
    b.ue(orderType);
    if (orderType == 0) b.ue(4);
    if (orderType == 1) b.bit(1), b.se(-3), b.se(5), b.ue(2), b.se(1), b.se(-1);
    b.ue(3), b.bit(0);
    const auto width = sx_range<std::uint8_t>(0, 63, "width"), height = sx_range<std::uint8_t>(0, 63, "height");
    b.code(6, width), b.code(6, height); // 63..126
    const auto progressive = sx_choice(2, "progressive");
    b.bit(progressive);
    if (!progressive) b.bit(1), sx_reach("interlaced");
    b.bit(1);
    const auto cropped = sx_flag("cropped");
    b.bit(cropped);
    const auto left = sx_range<std::uint8_t>(0, 3, "left"), right = sx_range<std::uint8_t>(0, 3, "right"), top = sx_range<std::uint8_t>(0, 3, "top"), bottom = sx_range<std::uint8_t>(0, 3, "bottom");
    if (cropped) b.code(2, left), b.code(2, right), b.code(2, top), b.code(2, bottom), sx_reach("cropped"); // 3..6
    b.bit(0);
    b.bit(1); // stop bit
    Diagnostics diag;
    auto c = parseAvcc(avcc({ b.bytes }, {}), diag);
    sx_assert(c.spsInfos.size() == 1 && c.ppsInfos.empty() && diag.empty(), "entry present");
    const auto &sps = c.spsInfos.front();
    sx_assert(sps.profileIndication == profile && sps.levelIndication == level && sps.profileConstraints == constraints, "profile and level");
    sx_assert(sps.id == 1u + id && sps.chromaFormatIndication == chroma, "ID and chroma format");
    sx_assert(sps.log2MaxFrameNum == 3u + frameNum + 4u && sps.pictureOrderCountType == orderType, "frame num and order");
    if (orderType == 0) sx_assert(sps.log2MaxPictureOrderCountLsb == 8, "order count LSB");
    if (orderType == 1) sx_assert(sps.deltaPicOrderAlwaysZeroFlag == 1 && sps.offsetForNonRefPic == -3 && sps.offsetForTopToBottomField == 5 && sps.numRefFramesInPicOrderCntCycle == 2, "order offsets");
    sx_assert((sps.frameMbsOnly != 0) == (progressive != 0) && !sps.vuiPresent, "frame flag");
    const unsigned w = 16u * (64u + width), h = 16u * (64u + height) * (progressive ? 1 : 2);
    const unsigned unitX = chroma == 1 || chroma == 2 ? 2 : 1, unitY = (chroma == 1 ? 2u : 1u) * (progressive ? 1 : 2);
    const unsigned cutX = cropped ? unitX * (6u + left + right) : 0, cutY = cropped ? unitY * (6u + top + bottom) : 0;
    sx_assert(sps.pictureSize.width() == w - cutX && sps.pictureSize.height() == h - cutY, "size of the picture");
    if (cropped) sx_assert(sps.cropping.left() == 3u + left && sps.cropping.right() == 3u + right && sps.cropping.top() == 3u + top && sps.cropping.bottom() == 3u + bottom, "cropping");
}

// Video usability information
//@ quick=60 thorough=200 threads=2 reach=vui,emulation
SX_HARNESS(avc_vui)
{
    Bits b;
    b.bits(0x67, 8), b.bits(66, 8), b.bits(0xC0, 8), b.bits(30, 8);
    b.ue(0), b.ue(0), b.ue(2), b.ue(1), b.bit(0), b.ue(9), b.ue(7), b.bit(1), b.bit(1), b.bit(0);
    b.bit(1); // VUI present
    const auto aspect = sx_choice(4, "aspect"); // none, predefined, extended, unknown
    const auto predefined = sx_range<std::uint8_t>(1, 16, "predefined");
    const auto num = sx_range<std::uint16_t>(0x0404, 0x0707, "numerator"), den = sx_range<std::uint16_t>(0x0404, 0x0707, "denominator");
    b.bit(aspect != 0);
    if (aspect == 1) b.bits(predefined, 8);
    if (aspect == 2) b.bits(255, 8), b.bits(num, 16), b.bits(den, 16);
    if (aspect == 3) b.bits(200, 8);
    static const unsigned patterns[] = { 0, 1, 2, 6, 8, 16, 24, 31 };
    const auto options = patterns[sx_choice(8, "options")];
    b.bit(options & 1);
    if (options & 1) b.bit(1);
    b.bit(options >> 1 & 1);
    if (options & 2) {
        b.bits(0xB, 4), b.bit(options >> 2 & 1);
        if (options & 4) b.bits(0x010101, 24);
    }
    b.bit(options >> 2 & 1);
    if (options & 4) b.ue(1), b.ue(1);
    const auto timing = sx_choice(3, "timing"); // none, small values requiring emulation prevention, arbitrary values
    const auto units = timing == 1 ? 1u : 0x04040404u | sx_val<std::uint32_t>("units"), scale = timing == 1 ? 50u : 0x04040404u | sx_val<std::uint32_t>("scale");
    const auto fixed = sx_range<std::uint8_t>(0, 1, "fixed");
    b.bit(timing != 0);
    if (timing) b.bits(units, 32), b.bits(scale, 32), b.bit(fixed);
    for (unsigned i = 0; i < 2; ++i) {
        b.bit(options >> (3 + i) & 1);
        if (options >> (3 + i) & 1) {
            b.ue(i), b.bits(4, 4), b.bits(6, 4);
            for (unsigned j = 0; j <= i; ++j) b.ue(300), b.ue(77), b.bit(0);
            b.bits(23, 5), b.bits(22, 5), b.bits(21, 5), b.bits(24, 5);
        }
    }
    if (options & 0x18) b.bit(0);
    const auto pic = timing == 1 ? 1u : static_cast<unsigned>(sx_range<std::uint8_t>(0, 1, "pic struct"));
    b.bit(pic);
    b.bit(1);
    b.bit(1), b.ue(2), b.ue(1), b.ue(9), b.ue(9), b.ue(0), b.ue(4);
    const auto nal = timing == 2 ? (b.bit(1), b.bytes) : b.nal();
    Diagnostics diag;
    auto c = parseAvcc(avcc({ nal }, {}), diag);
    sx_assert(c.spsInfos.size() == 1 && diag.empty(), "entry present");
    const auto &sps = c.spsInfos.front();
    sx_assert(sps.pictureSize.width() == 160 && sps.pictureSize.height() == 128 && sps.vuiPresent, "size");
    static const unsigned ratios[][2] = { { 0, 0 }, { 1, 1 }, { 12, 11 }, { 10, 11 }, { 16, 11 }, { 40, 33 }, { 24, 11 }, { 20, 11 }, { 32, 11 }, { 80, 33 }, { 18, 11 }, { 15, 11 }, { 64, 33 }, { 160, 99 }, { 4, 3 }, { 3, 2 }, { 2, 1 } };
    const auto &ratio = sps.pixelAspectRatio;
    if (aspect == 1) sx_assert(ratio.isValid() && ratio.numerator == ratios[predefined][0] && ratio.denominator == ratios[predefined][1], "predefined aspect ratio");
    if (aspect == 2) sx_assert(ratio.isValid() && ratio.numerator == num && ratio.denominator == den, "extended aspect ratio");
    if (!(aspect & 3) || aspect == 3) sx_assert(!ratio.isValid(), "no aspect ratio");
    sx_assert((sps.timingInfo.isPresent != 0) == (timing != 0), "presence of timing");
    if (timing) sx_assert(sps.timingInfo.unitsInTick == units && sps.timingInfo.timeScale == scale && (sps.timingInfo.fixedFrameRate != 0) == (fixed != 0), "timing");
    sx_assert((sps.hrdParametersPresent != 0) == ((options & 0x18) != 0), "presence of HRD parameters");
    for (unsigned i = 0; i < 2; ++i) {
        const auto &hrd = i ? sps.vclHrdParameters : sps.nalHrdParameters;
        if (options >> (3 + i) & 1) sx_assert(hrd.cpbCount == i + 1 && hrd.bitRateScale == 4 && hrd.cpbSizeScale == 6 && hrd.initialCpbRemovalDelayLength == 24 && hrd.cpbRemovalDelayLength == 23 && hrd.cpbOutputDelayLength == 22 && hrd.timeOffsetLength == 24, "HRD parameters");
    }
    sx_assert((sps.pictureStructPresent != 0) == (pic != 0), "presence of picture structure");
    sx_reach(timing == 1 ? "emulation" : "vui");
}

// Several SPS and PPS entries including ones which are not supported
//@ quick=60 thorough=200 threads=2 reach=lists,ignored
SX_HARNESS(avc_lists)
{
    static const unsigned counts[] = { 0, 1, 2, 15, 16, 31 };
    const auto spsCount = counts[sx_choice(6, "SPS")], ppsCount = static_cast<unsigned>(sx_choice(3, "PPS"));
    const auto bad = sx_choice(4, "bad"); // none, unknown type of SPS, truncated SPS, empty PPS
    const auto lengthSize = sx_range<std::uint8_t>(0, 3, "length size");
    const auto order = sx_choice(2, "order");
    std::vector<std::string> spss, ppss;
    for (unsigned i = 0; i < spsCount; ++i) spss.emplace_back(simpleSps(i, 20 + i, 10 + i));
    for (unsigned i = 0; i < ppsCount; ++i) ppss.emplace_back(pps(i + 1, i + 2, order));
    if (bad == 1 && spsCount) spss[0][0] = '\x61';
    if (bad == 2 && spsCount) spss[0].resize(sx_choice(5, "rest"));
    if (bad == 3 && ppsCount) ppss[0].clear();
    const auto ignoredSps = (bad == 1 || bad == 2) && spsCount ? 1u : 0u, ignoredPps = bad == 3 && ppsCount ? 1u : 0u;
    Diagnostics diag;
    const auto c = parseAvcc(avcc(spss, ppss, lengthSize), diag);
    sx_assert(c.profileIndication == 100 && c.profileCompat == 0 && c.levelIndication == 41 && c.naluSizeLength == lengthSize + 1, "general values");
    sx_assert(c.spsInfos.size() == spsCount - ignoredSps && c.ppsInfos.size() == ppsCount - ignoredPps, "number of entries");
    for (std::size_t i = 0; i < c.spsInfos.size(); ++i) {
        const auto n = static_cast<unsigned>(i) + ignoredSps;
        sx_assert(c.spsInfos[i].id == n && c.spsInfos[i].pictureSize.width() == (20 + n) * 16 && c.spsInfos[i].pictureSize.height() == (10 + n) * 16, "SPS entry");
        sx_assert(c.spsInfos[i].size == spss[n].size(), "size of SPS entry");
    }
    for (std::size_t i = 0; i < c.ppsInfos.size(); ++i) {
        const auto n = static_cast<unsigned>(i) + ignoredPps;
        sx_assert(c.ppsInfos[i].id == n + 1 && c.ppsInfos[i].spsId == n + 2 && c.ppsInfos[i].picOrderPresent == order, "PPS entry");
    }
    sx_assert(diag.empty() == !(ignoredSps || ignoredPps), "ignored entries reported");
    sx_reach(ignoredSps || ignoredPps ? "ignored" : "lists");
}

// Configuration denoting less data than its entries need
//@ quick=40 thorough=120 threads=2 reach=rejected,accepted
SX_HARNESS(avc_truncated)
{
    const auto bytes = avcc({ simpleSps(0, 20, 10), simpleSps(1, 20, 10) }, { pps(0, 0, 0) });
    const auto cut = sx_choice(static_cast<unsigned>(bytes.size()) + 1, "cut");
    Mem s(bytes);
    BinaryReader reader(&s);
    Diagnostics diag;
    AvcConfiguration c;
    bool failed = false;
    try { c.parse(reader, bytes.size() - cut, diag); } catch (const TruncatedDataException &) { failed = true; }
    sx_assert(failed == (cut != 0), "truncation recognized");
    sx_assert(static_cast<std::size_t>(s.tellg()) <= bytes.size(), "not read beyond");
    sx_reach(failed ? "rejected" : "accepted");
}

// ---- Damaged data
template <typename Stream> static void parseDamaged(const std::string &bytes)
{
    Mem s(bytes);
    Stream stream(s, 0);
    stream.setSize(bytes.size());
    Diagnostics diag;
    AbortableProgressFeedback progress;
    try { stream.parseHeader(diag, progress); } catch (const Failure &) { sx_reach("rejected"); return; } catch (const std::ios_base::failure &) { sx_reach("rejected"); return; }
    sx_assert(stream.duration().totalTicks() >= 0, "duration not negative");
    sx_assert(!(stream.bitrate() != stream.bitrate()) && stream.bitrate() >= 0.0 && stream.bitrate() < 1e18, "bitrate is a number");
    sx_reach("accepted");
}
//@ quick=60 thorough=200 threads=2 reach=accepted
SX_HARNESS(damage_mpeg)
{
    const auto version = sx_choice(4, "version"), layer = sx_choice(4, "layer"), rate = sx_choice(4, "bitrate"), freq = sx_choice(4, "frequency"), mono = sx_choice(2, "mono");
    static const unsigned rates[] = { 0, 1, 14, 15 };
    const auto rest = sx_val<std::uint8_t>("rest");
    static const unsigned counts[] = { 0, 1, 0xFFFFFFFFu };
    const auto frames = sx_choice(3, "frames");
    std::string bytes{ '\xFF', static_cast<char>(0xE0 | version << 3 | layer << 1 | (rest & 1)), static_cast<char>(rates[rate] << 4 | freq << 2 | (rest & 2)), static_cast<char>(mono << 7 | mono << 6 | rest >> 2) };
    const unsigned offset = version == 3 ? (mono ? 21 : 36) : (mono ? 13 : 21);
    bytes += std::string(offset - 4, '\0') + "Xing" + std::string("\0\0\0\x03", 4) + be(counts[frames], 4) + std::string(4, '\xFF');
    parseDamaged<MpegAudioFrameStream>(bytes + std::string(3000, '\0'));
}
//@ quick=40 thorough=120 threads=2 reach=accepted,rejected
SX_HARNESS(damage_adts)
{
    parseDamaged<AdtsStream>(sx_string(sx_choice(3, "n") + 7, "data"));
}
//@ quick=60 thorough=200 threads=2 reach=accepted,rejected
SX_HARNESS(damage_wave)
{
    const auto fmt = std::string("\1\0\2\0\x44\xAC\0\0\x10\xB1\2\0\4\0\x10\0", 16);
    auto file = "RIFF" + le(100, 4) + "WAVE" + chunk("fmt ", fmt) + chunk("data", "abcdefgh");
    const auto n = sx_choice(static_cast<unsigned>(file.size()), "position");
    file[n] = static_cast<char>(sx_val<std::uint8_t>("byte"));
    parseDamaged<WaveAudioStream>(file);
}
//@ quick=60 thorough=200 threads=2 reach=accepted,rejected
SX_HARNESS(damage_avc)
{
    const auto n = sx_choice(2 + SX_THOROUGH, "n") + 1;
    const auto body = sx_string(n, "body");
    Mem s(std::string("\x01\x64\x00\x29\xFF\xE1", 6) + be(n + 4, 2) + std::string("\x67\x42\xC0\x1E", 4) + body + std::string(1, '\0'));
    BinaryReader reader(&s);
    Diagnostics diag;
    AvcConfiguration c;
    try { c.parse(reader, n + 13, diag); } catch (const Failure &) { sx_reach("rejected"); return; }
    sx_assert(c.spsInfos.size() <= 1 && c.ppsInfos.empty(), "number of entries");
    sx_reach(c.spsInfos.empty() ? "rejected" : "accepted");
}
// Values of the AVC configuration are those of the track
//@ quick=30 thorough=60 threads=1 reach=sps,nosps
SX_HARNESS(avc_track)
{
    const auto withSps = sx_flag("SPS");
    const auto level = sx_val<std::uint8_t>("level");
    Diagnostics diag;
    AvcConfiguration c;
    c.profileIndication = 77, c.levelIndication = level;
    if (withSps) {
        c.spsInfos.emplace_back();
        auto &sps = c.spsInfos.back();
        sps.profileIndication = sx_val<std::uint8_t>("profile");
        sps.levelIndication = level;
        sps.chromaFormatIndication = sx_choice(5, "chroma");
        sps.pictureSize = Size(sx_val<std::uint32_t>("width"), sx_val<std::uint32_t>("height"));
        sps.cropping = Margin(1, 2, 3, sx_val<std::uint32_t>("bottom"));
        sps.pixelAspectRatio = AspectRatio(sx_val<std::uint16_t>("numerator"), 9);
    }
    Mem s("x");
    IvfStream track(s, 0);
    Mp4Track::addInfo(c, track);
    sx_assert(track.version() * 10.0 > level - 0.001 && track.version() * 10.0 < level + 0.001, "level");
    if (!withSps) {
        sx_assert(track.format().sub == 77, "profile");
        sx_reach("nosps");
        return;
    }
    const auto &sps = c.spsInfos.back();
    static const char *const names[] = { "monochrome", "YUV 4:2:0", "YUV 4:2:2", "YUV 4:4:4", "" };
    sx_assert(track.format().sub == sps.profileIndication, "profile");
    sx_assert(std::string(track.chromaFormat()) == names[sps.chromaFormatIndication], "chroma format");
    sx_assert(track.pixelSize() == sps.pictureSize && track.cropping().bottom() == sps.cropping.bottom() && track.cropping().left() == sps.cropping.left(), "size and cropping");
    sx_assert(track.pixelAspectRatio().numerator == sps.pixelAspectRatio.numerator && track.pixelAspectRatio().denominator == 9, "aspect ratio");
    sx_reach("sps");
}
