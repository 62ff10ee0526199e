// Symbolic texts in any encoding and comparison by characters.
#pragma once
#include "ref.h"
#include "../engine/sx.h"
#include <tagparser/tagvalue.h>
static constexpr TagParser::TagTextEncoding TXT_ENC[] = { TagParser::TagTextEncoding::Latin1, TagParser::TagTextEncoding::Utf8, TagParser::TagTextEncoding::Utf16LittleEndian, TagParser::TagTextEncoding::Utf16BigEndian };
inline bool txtWide(TagParser::TagTextEncoding e) { return e == TagParser::TagTextEncoding::Utf16LittleEndian || e == TagParser::TagTextEncoding::Utf16BigEndian; }
struct Txt {
    TagParser::TagTextEncoding e;
    std::string s;
    ref::Codepoints cps;
    TagParser::TagValue value() const { return TagParser::TagValue(s, e); }
};
// valid text of n units without null characters and byte order mark
inline Txt symText(TagParser::TagTextEncoding e, unsigned n, const char *name)
{
    Txt t;
    t.e = e;
    t.s = sx_string(txtWide(e) ? 2 * n : n, name);
    if (!txtWide(e))
        for (char c : t.s) sx_assume_(c != 0);
    if (e == TagParser::TagTextEncoding::Latin1 && n >= 3) sx_assume_(!((t.s[0] == char(0xEF)) & (t.s[1] == char(0xBB)) & (t.s[2] == char(0xBF))));
    const bool valid = ref::decode(t.s, e, t.cps);
    sx_assume(valid);
    for (auto c : t.cps) sx_assume_((c != 0) & (c != 0xFEFF));
    return t;
}
inline void sameChars(const std::string &data, TagParser::TagTextEncoding e, const ref::Codepoints &want, const char *msg)
{
    ref::Codepoints got;
    const bool ok = ref::decode(data, e, got);
    sx_assert(ok, msg);
    sx_assert(got.size() == want.size(), msg);
    if (got.size() != want.size()) return;
    for (size_t i = 0; i < got.size(); ++i) sx_assert(got[i] == want[i], msg);
}
inline void sameText(const TagParser::TagValue &v, const ref::Codepoints &want, const char *msg)
{
    sx_assert(v.type() == TagParser::TagDataType::Text || (want.empty() && v.isEmpty()), msg);
    sameChars(std::string(v.dataPointer(), v.dataSize()), v.dataEncoding(), want, msg);
}
