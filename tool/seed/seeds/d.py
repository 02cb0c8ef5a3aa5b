SEEDS = {
'B21-assigned-tag-value-loses-locale': dict(property='P26', needs='assigning (not copy-constructing) a tag value which has a locale',
 breaks='the language of e.g. a comment or lyrics is lost or that of the previously held value is kept when a value is assigned',
 edits=[('tagvalue.cpp', """    m_mimeType = other.m_mimeType;
    m_locale = other.m_locale;
""", """    m_mimeType = other.m_mimeType;
""")],
 demo=r"""
#include <tagparser/tagvalue.h>
int main()
{
    TagValue a("x", 1, TagTextEncoding::Utf8), b;
    a.setLocale(Locale(std::string("ger"), LocaleFormat::ISO_639_2_B));
    b = a;
    if (b.locale().empty() || b.locale().front() != a.locale().front()) return 1;
    return 0;
}
"""),
'B22-targets-of-different-attachments-are-equal': dict(property='P26', needs='two tags of a Matroska file whose targets differ only in the attachment they apply to',
 breaks='the targets compare equal, so creating the second tag returns the existing tag of the other attachment',
 edits=[('tagtarget.h', """    return level() == other.level() && m_tracks == other.m_tracks && m_chapters == other.m_chapters && m_editions == other.m_editions
        && m_attachments == other.m_attachments;""", """    return level() == other.level() && m_tracks == other.m_tracks && m_chapters == other.m_chapters && m_editions == other.m_editions
        && m_attachments.size() == other.m_attachments.size();""")],
 demo=r"""
#include <tagparser/tagtarget.h>
int main()
{
    TagTarget a(50, {}, {}, {}, { 1 }), b(50, {}, {}, {}, { 2 });
    return a == b;
}
"""),
'B23-popularity-byte-order-reader-and-writer-agree': dict(property='P28', needs='reading the raw data of a popularity value (both accessors of the library agree with each other)',
 breaks='the play counter of a popularity is stored in the wrong byte order',
 edits=[('tagvalue.cpp', 'popularity.playCounter = reader.readUInt64LE();', 'popularity.playCounter = reader.readUInt64BE();'),
        ('tagvalue.cpp', 'writer.writeUInt64LE(value.playCounter);', 'writer.writeUInt64BE(value.playCounter);')],
 demo=r"""
#include <tagparser/tagvalue.h>
int main()
{
    const auto v = TagValue(Popularity{ .user = "u", .rating = 1.0, .playCounter = 5, .scale = TagType::VorbisComment });
    // length prefix, user, 8 bytes of rating, play counter
    return v.dataSize() < 18 || v.dataPointer()[10] != 5 || v.dataPointer()[17] != 0;
}
"""),
'B24-opus-pre-skip-byte-order': dict(property='P28', needs='an Opus stream with a pre-skip value which is not a palindrome',
 breaks='the pre-skip of the identification header is read big-endian',
 edits=[('opus/opusidentificationheader.cpp', 'm_preSkip = LE::toInt<std::uint16_t>(buff + 2);', 'm_preSkip = BE::toInt<std::uint16_t>(buff + 2);')],
 demo=r"""
#include <tagparser/ogg/oggiterator.h>
#include <tagparser/opus/opusidentificationheader.h>
#include <sstream>
using namespace std;
int main()
{
    const auto head = "OpusHead"s + string("\x01\x02\x38\x01\x80\xbb\0\0\0\0\0", 11);
    const auto page = "OggS"s + string(2, '\0') + string(8, '\0') + string("\1\0\0\0\0\0\0\0\0\0\0\0\x01", 13) + string(1, static_cast<char>(head.size())) + head;
    stringstream s(page, ios_base::in | ios_base::out | ios_base::binary);
    s.exceptions(ios_base::badbit | ios_base::failbit);
    OggIterator i(s, 0, page.size());
    i.reset();
    OpusIdentificationHeader h;
    h.parseHeader(i);
    return h.preSkip() != 0x0138;
}
"""),
}
