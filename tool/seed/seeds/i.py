SEEDS = {
'B37-view-of-temporary-in-description': dict(property='P06', needs='a video track smaller than 240p',
 breaks='the description of the track refers to a string which has already been destroyed',
 tool='valgrind --error-exitcode=7 -q',
 edits=[('abstracttrack.cpp', '''            additionalInfoRef = pixelSize().abbreviation();
''', '''            if ((additionalInfoRef = pixelSize().abbreviation()) == "<240p") {
                additionalInfoRef = pixelSize().toString();
            }
''')],
 demo='''
#include <tagparser/abstracttrack.h>
int main()
{
    Scratch s;
    const auto track = el(0x1654AE6B, el(0xAE, uel(0xD7, 1, 1) + uel(0x73C5, 1, 1) + uel(0x83, 1, 1) + el(0x86, "V_VP8") + el(0xE0, uel(0xB0, 120, 2) + uel(0xBA, 100, 2))));
    save(s / "a.mkv", ebmlHeader() + el(0x18538067, mkvInfo() + track + mkvCluster(100)));
    MediaFileInfo f{ std::string_view(s / "a.mkv") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseEverything(diag, progress);
    if (f.tracks().size() != 1) {
        std::cerr << "track not found\\n";
        return 3;
    }
    return f.tracks().front()->description().empty();
}
'''),
'B38-reference-to-data-entry-kept-while-growing': dict(property='P06', needs='an MP4 tag field with more than one value being written',
 breaks='a reference to an element is used after the vector has been grown',
 tool='valgrind --error-exitcode=7 -q',
 edits=[('mp4/mp4tagfield.cpp', """    auto &data = m_data.emplace_back();
    m_writer.setStream(&data.convertedData);
""", """    auto &data = m_data.emplace_back();
    if (m_data.size() == 1) {
        // make room for the additional values as well
        m_data.reserve(1 + m_field.additionalData().size());
    }
    m_writer.setStream(&data.convertedData);
""")],
 demo=r"""
#include <tagparser/mp4/mp4tag.h>
#include <tagparser/mp4/mp4ids.h>
int main()
{
    Diagnostics diag;
    Scratch s;
    const auto data = [](const string &v) { return atom("data", be(1, 4) + z(4) + v); };
    const auto meta = atom("udta", atom("meta", z(4) + atom("hdlr", z(8) + "mdirappl" + z(9)) + atom("ilst", atom("\xa9" "nam", data("First") + data("Second") + data("Third")))));
    save(s / "a.m4a", ftyp() + atom("moov", mvhd() + trak(64, 100) + meta) + atom("mdat", z(100)));
    MediaFileInfo f{ std::string_view(s / "a.m4a") };
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseEverything(diag, progress);
    auto made = 0;
    for (auto *tag : f.tags()) {
        if (tag->type() != TagType::Mp4Tag) {
            continue;
        }
        for (auto &i : static_cast<Mp4Tag *>(tag)->fields()) {
            made += i.second.additionalData().size() == 2;
            i.second.prepareMaking(diag);
        }
    }
    if (!made) {
        std::cerr << "no field with additional values\n";
        return 3;
    }
    return 0;
}
"""),
'B39-merged-id3v2-tag-released-first': dict(property='P06', needs='merging more than one ID3v2 tag',
 breaks='the fields are taken from a tag which has already been destroyed',
 tool='valgrind --error-exitcode=7 -q',
 edits=[('mediafileinfo.cpp', """    for (auto i = isecond; i != end; ++i) {
        first.insertFields(**i, false);
    }
    m_id3v2Tags.erase(isecond, end);
""", """    for (; isecond != end; end = m_id3v2Tags.end()) {
        const auto &second = **isecond;
        isecond = m_id3v2Tags.erase(isecond);
        first.insertFields(second, false);
    }
""")],
 demo=r"""
#include <tagparser/id3/id3v2tag.h>
int main()
{
    Scratch s;
    save(s / "a.mp3", id3v2(frame23("TIT2", z(1) + "Old") + z(32)) + id3v2(frame23("TPE1", z(1) + "Artist") + z(32)) + mpegFrames(20));
    MediaFileInfo f{ std::string_view(s / "a.mp3") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseEverything(diag, progress);
    if (f.id3v2Tags().size() != 2) {
        std::cerr << "only one tag\n";
        return 3;
    }
    f.mergeId3v2Tags();
    return f.id3v2Tags().front()->value(KnownField::Artist).toString() == "Artist" ? 0 : 4;
}
"""),
}
