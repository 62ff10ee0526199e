// Applying changes to MP3 files: the tags are as requested, the audio data stays as it was.
#include "../engine/sx.h"
#include "../models/fs.h"
#include "io.h"
#include "txt.h"
#include <tagparser/exceptions.h>
#include <tagparser/id3/id3v1tag.h>
#include <tagparser/id3/id3v2tag.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tagvalue.h>
#include <c++utilities/conversion/conversionexception.h>
using namespace TagParser;
using namespace CppUtilities;
//! bound: MP3 files of one MPEG audio frame header and five arbitrary bytes with up to two ID3v2 tags, zero bytes, an APE tag at the end and an ID3v1 tag; every combination of adding, changing and removing tags, of forced rewriting, of saving under another name and of paddings below, at and above the limits, titles of one arbitrary character and of 30 characters
//! outside: other contents of tags (see the properties about ID3 tags), failures (see the property about failures)

static std::string id3v2(const std::string &title, unsigned padding)
{
    const std::string frame = std::string("TIT2") + be(1 + title.size(), 4) + std::string(2, '\0') + std::string(1, '\3') + title;
    return std::string("ID3\4\0\0", 6) + be(frame.size() + padding, 4) + frame + std::string(padding, '\0');
}
static std::string id3v1(const std::string &title) { return "TAG" + title + std::string(125 - title.size() - 1, '\0') + '\x11'; }
static std::string ape() { return "APETAGEX" + le(2000, 4) + le(32, 4) + le(0, 4) + le(0, 4) + std::string(8, '\0'); }
static std::string letter(const char *name)
{
    auto s = sx_string(1, name);
    sx_assume_((s[0] > 0x20) & (s[0] < 0x7F));
    return s;
}
struct File {
    std::string media, bytes;
    std::vector<std::string> v2;
    unsigned padding = 0, zeroes = 0;
    bool v1 = false;
    std::string v1title;
};
static File file(unsigned tags, bool zeroes, bool withApe, bool withV1, unsigned padding)
{
    File f;
    f.media = std::string("\xff\xfb\x90\x40" "a") + sx_string(5, "audio") + std::string(60, 'a');
    if (withApe) f.media += ape();
    for (unsigned i = 0; i < tags; ++i) {
        f.v2.push_back(letter("v2title"));
        f.bytes += id3v2(f.v2.back(), i + 1 == tags ? padding : 0);
    }
    f.padding = tags ? padding : 0;
    if (zeroes) f.zeroes = 7, f.bytes += std::string(7, '\0');
    f.v1 = withV1;
    f.bytes += f.media;
    if (withV1) {
        f.v1title = letter("v1title");
        f.bytes += id3v1(f.v1title);
    }
    return f;
}
static size_t expect(const std::string &path, const File &f, size_t leading)
{
    const auto s = fs_get(path);
    size_t o = 0;
    for (size_t i = 0; i < f.v2.size(); ++i) {
        sx_assert(s.size() > o + 10 && s.compare(o, 3, "ID3") == 0, "ID3v2 tag is present");
        size_t n = 0;
        for (unsigned k = 6; k < 10; ++k) n = (n << 7) | static_cast<unsigned char>(s[o + k]);
        o += 10 + n;
    }
    o += leading;
    sx_assert(s.size() == o + f.media.size() + (f.v1 ? 128 : 0), "size of file");
    sx_assert_eq(s.substr(o, f.media.size()), f.media, "audio data is kept");
    if (f.v1) {
        sx_assert(s.compare(s.size() - 128, 3, "TAG") == 0, "ID3v1 tag is present");
        sx_assert_eq(s.substr(s.size() - 125, f.v1title.size()), f.v1title, "title of ID3v1 tag");
        sx_assert(s[s.size() - 125 + f.v1title.size()] == (f.v1title.size() < 30 ? 0 : s[s.size() - 95]), "title of ID3v1 tag");
    }
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(path);
    info.open();
    info.parseEverything(diag, progress);
    sx_assert(info.containerFormat() == ContainerFormat::MpegAudioFrames, "still an MP3 file");
    sx_assert(info.tagsParsingStatus() == ParsingStatus::Ok, "tags can be read");
    sx_assert(info.hasId3v1Tag() == f.v1, "ID3v1 tag");
    if (f.v1) sx_assert_eq(info.id3v1Tag()->value(KnownField::Title).toString(), f.v1title, "title of ID3v1 tag is read back");
    sx_assert(info.id3v2Tags().size() == f.v2.size(), "number of ID3v2 tags");
    for (size_t i = 0; i < f.v2.size(); ++i) sx_assert_eq(info.id3v2Tags()[i]->value(KnownField::Title).toString(TagTextEncoding::Utf8), f.v2[i], "title of ID3v2 tag is read back");
    size_t padding = 0;
    for (const auto &t : info.id3v2Tags()) padding += t->paddingSize();
    return padding;
}
static void noProblems(const Diagnostics &diag)
{
    for (const auto &m : diag) sx_assert(m.level() < DiagLevel::Critical, "no critical problems");
}

//@ quick=100 thorough=900 threads=6 reach=rewritten,inplace,id3v1only,saveas
SX_HARNESS(apply)
{
    const auto tags = sx_choice(3, "tags"), padding = tags ? sx_choice(3, "padding") * 10 : 0;
    const bool zeroes = tags != 2 && sx_flag("zeroes"), withApe = tags != 2 && sx_flag("ape"), withV1 = sx_flag("v1");
    File f = file(tags, zeroes, withApe, withV1, padding);
    fs_put("f.mp3", f.bytes);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    MediaFileInfo info(std::string("f.mp3"));
    info.open();
    info.parseEverything(diag, progress);
    sx_assert(info.containerFormat() == ContainerFormat::MpegAudioFrames, "format");
    sx_assert(info.hasId3v1Tag() == withV1 && info.id3v2Tags().size() == tags, "tags are read");
    sx_assert(info.paddingSize() == f.padding + f.zeroes, "padding");
    sx_assert(info.effectiveSize() == f.media.size() - (withApe ? 32 : 0), "size of audio data");
    switch (sx_choice(3, "v1action")) {
    case 1:
        info.removeId3v1Tag();
        f.v1 = false;
        break;
    case 2:
        f.v1 = true;
        f.v1title = sx_flag("v1long") ? letter("newv1") + std::string(29, 'x') : letter("newv1");
        info.createId3v1Tag()->setValue(KnownField::Title, TagValue(f.v1title, TagTextEncoding::Latin1));
        break;
    default:;
    }
    switch (sx_choice(3, "v2action")) {
    case 1:
        info.removeAllId3v2Tags();
        f.v2.clear();
        break;
    case 2: {
        if (f.v2.empty()) f.v2.emplace_back();
        f.v2[0] = sx_flag("v2long") ? letter("newv2") + std::string(29, 'x') : letter("newv2");
        auto *const tag = info.createId3v2Tag();
        if (!tags) tag->setVersion(4, 0);
        tag->setValue(KnownField::Title, TagValue(f.v2[0], TagTextEncoding::Utf8));
        break;
    }
    default:;
    }
    const bool force = sx_flag("force");
    info.setForceRewrite(force);
    const auto preferred = sx_choice(2, "preferred") * 5, min = sx_choice(2, "min") * 5, max = sx_choice(2, "max") ? 100 : min;
    info.setMinPadding(min);
    info.setMaxPadding(max);
    info.setPreferredPadding(preferred);
    const bool saveAs = !force && sx_flag("saveas");
    if (saveAs) info.setSaveFilePath(std::string("g.mp3"));
    info.applyChanges(diag, progress);
    info.close();
    noProblems(diag);
    const bool v1only = !tags && f.v2.empty() && !force && !saveAs;
    if (saveAs) {
        sx_assert_eq(fs_get("f.mp3"), f.bytes, "the original file is kept when saving under another name");
        sx_assert(info.path() == "g.mp3", "path");
        sx_reach("saveas");
    }
    const auto head = expect(saveAs ? "g.mp3" : "f.mp3", f, v1only ? f.zeroes : 0);
    if (v1only) {
        sx_reach("id3v1only");
        return;
    }
    if (!f.v2.empty()) {
        // the padding is within the limits unless rewritten; then it is as requested
        if (force || saveAs)
            sx_assert(head == preferred, "padding when rewriting");
        else
            sx_assert((head >= min && head <= max) || head == preferred, "padding is within the limits");
    }
    if (fs_exists("f.mp3.bak")) {
        sx_assert_eq(fs_get("f.mp3.bak"), f.bytes, "backup");
        sx_reach("rewritten");
    } else
        sx_reach("inplace");
}
