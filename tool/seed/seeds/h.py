SEEDS = {
'B34-bom-of-empty-description': dict(property='P05', needs='an ID3v2 comment frame with UTF-16 text which ends directly after the terminated description, or a BOM looked for in an empty remainder',
 breaks='bytes after the end of the frame are read as byte order mark',
 tool='valgrind --error-exitcode=7 -q',
 edits=[('id3/id3v2frame.cpp', """        if (bufferSize >= 2) {
            switch (LE::toInt""", """        if (bufferSize) {
            switch (LE::toInt""")],
 demo=r"""
int main()
{
    Scratch s;
    // text frame consisting of encoding byte and a single further byte
    save(s / "a.mp3", id3v2(frame23("TIT2", string("\x01\xff", 2)) + z(32)) + mpegFrames(20));
    MediaFileInfo f{ std::string_view(s / "a.mp3") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseEverything(diag, progress);
    return 0;
}
"""),
'B35-genre-read-with-wrong-width': dict(property='P05', needs='a 32-bit genre index or integer converted to a genre index',
 breaks='eight bytes are read from a buffer of four',
 tool='valgrind --error-exitcode=7 -q',
 edits=[('tagvalue.cpp', """        if (m_size == sizeof(std::int32_t)) {
            index = static_cast<int>(*reinterpret_cast<std::int32_t *>(m_ptr.get()));
        } else if (m_size == sizeof(std::uint64_t)) {
            const auto unsignedInt = *reinterpret_cast<std::uint64_t *>(m_ptr.get());""", """        if (m_size == sizeof(std::int32_t) && m_type != TagDataType::UnsignedInteger) {
            index = static_cast<int>(*reinterpret_cast<std::int32_t *>(m_ptr.get()));
        } else if (m_size == sizeof(std::uint64_t) || m_type == TagDataType::UnsignedInteger) {
            const auto unsignedInt = *reinterpret_cast<std::uint64_t *>(m_ptr.get());""")],
 demo=r"""
int main()
{
    TagValue v("\7\0\0\0", 4, TagDataType::UnsignedInteger);
    try {
        return v.toStandardGenreIndex() == 12345;
    } catch (const CppUtilities::ConversionException &) {
        return 0;
    }
}
"""),
'B36-integer-element-longer-than-eight-bytes': dict(property='P05', needs='a Matroska file whose EditionFlagHidden or another integer element claims to be longer than eight bytes',
 breaks='data is written past the end of a local buffer',
 edits=[('matroska/ebmlelement.cpp', """    const auto bytesToSkip = maxBytesToRead - min(dataSize(), maxBytesToRead);
    stream().seekg(static_cast<streamoff>(dataOffset()), ios_base::beg);
    stream().read(buff + bytesToSkip, static_cast<streamoff>(sizeof(buff) - bytesToSkip));""", """    const auto bytesToSkip = maxBytesToRead - min(dataSize(), maxBytesToRead);
    const auto bytesToRead = bytesToSkip ? sizeof(buff) - bytesToSkip : static_cast<std::size_t>(dataSize());
    stream().seekg(static_cast<streamoff>(dataOffset()), ios_base::beg);
    stream().read(buff + bytesToSkip, static_cast<streamoff>(bytesToRead));""")],
 demo=r"""
#include <tagparser/matroska/ebmlelement.h>
#include <tagparser/matroska/matroskacontainer.h>
int main()
{
    Scratch s;
    // EBML header with DocTypeVersion of 4000 bytes
    const auto big = string("\x42\x87", 2) + string("\x4f\xa0", 2) + string(4000, 'A');
    save(s / "a.mkv", string("\x1a\x45\xdf\xa3", 4) + string("\x4f\xa4", 2) + big + string(64, '\0'));
    MediaFileInfo f{ std::string_view(s / "a.mkv") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseEverything(diag, progress);
    return 0;
}
"""),
}
