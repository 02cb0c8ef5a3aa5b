SEEDS = {
'B25-padding-counted-again-when-parsing-is-retried': dict(property='P27', needs='a first attempt to parse the container format which fails with an IO error after junk bytes have been skipped, and a second attempt',
 breaks='the junk skipped by the failed attempt is counted (and skipped) again, so the padding size is wrong',
 edits=[('mediafileinfo.cpp', """    m_paddingSize = 0;
    m_containerOffset = 0;
    std::size_t""", """    m_containerOffset = 0;
    std::size_t""")],
 demo=r"""
int main()
{
    Scratch s;
    // junk followed by an ID3v2 header denoting more data than present
    save(s / "a.mp3", z(8) + id3v2(z(10000)).substr(0, 20));
    MediaFileInfo f{ std::string_view(s / "a.mp3") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    std::uint64_t padding[2];
    for (auto &p : padding) {
        try {
            f.parseContainerFormat(diag, progress);
            return 2;
        } catch (const std::ios_base::failure &) {
            f.stream().clear();
        }
        p = f.paddingSize();
    }
    return padding[0] != padding[1];
}
"""),
'B26-chapters-survive-container-reset': dict(property='P27', needs='resetting and re-parsing a Matroska container with chapters',
 breaks='the editions of the previous parse remain after the container has been reset',
 edits=[('matroska/matroskacontainer.cpp', """    m_seekInfos.clear();
    m_editionEntries.clear();
    m_attachments.clear();
    m_segmentCount = 0;""", """    m_seekInfos.clear();
    m_attachments.clear();
    m_segmentCount = 0;""")],
 demo=r"""
#include <tagparser/matroska/matroskacontainer.h>
int main()
{
    Scratch s;
    save(s / "a.mkv", mkv(4000, el(0x1043A770, el(0x45B9, el(0xB6, uel(0x73C4, 1) + uel(0x91, 0) + el(0x80, el(0x85, "A")))))));
    MediaFileInfo f{ std::string_view(s / "a.mkv") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseContainerFormat(diag, progress);
    f.parseChapters(diag, progress);
    auto *const c = static_cast<MatroskaContainer *>(f.container());
    if (c->editionEntires().size() != 1) return 2;
    c->reset();
    return !c->editionEntires().empty();
}
"""),
'B27-chapters-doubled-when-edition-is-parsed-again': dict(property='P27', needs='parsing an edition again using the same object',
 breaks='the chapters of the first parse are kept, so every chapter is present twice',
 edits=[('matroska/matroskaeditionentry.cpp', '''    static const string context("parsing \\"EditionEntry\\"-element");
    clear();
''', '''    static const string context("parsing \\"EditionEntry\\"-element");
    // clear previous values and status
    m_id = 0;
    m_hidden = m_default = m_ordered = false;
''')],
 demo=r'''
#include <tagparser/matroska/matroskacontainer.h>
#include <tagparser/matroska/matroskachapter.h>
#include <tagparser/matroska/matroskaeditionentry.h>
int main()
{
    Scratch s;
    save(s / "a.mkv", mkv(4000, el(0x1043A770, el(0x45B9, el(0xB6, uel(0x73C4, 1) + uel(0x91, 0) + el(0x80, el(0x85, "A")))))));
    MediaFileInfo f{ std::string_view(s / "a.mkv") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseContainerFormat(diag, progress);
    f.parseChapters(diag, progress);
    auto *const c = static_cast<MatroskaContainer *>(f.container());
    auto *const edition = c->editionEntires().at(0).get();
    if (edition->chapters().size() != 1) return 2;
    edition->parse(diag);
    return edition->chapters().size() != 1;
}
'''),
'B28-aborted-chapter-parsing-counts-as-done': dict(property='P12', needs='aborting while the chapters of a Matroska file are parsed, followed by another attempt',
 breaks='the abort is silently dropped, the status is "ok" and the chapters are never parsed',
 edits=[('matroska/matroskaeditionentry.cpp', """    progress.stopIfAborted();
""", """    if (progress.isAborted()) {
        return;
    }
""")],
 demo=r"""
int main()
{
    Scratch s;
    save(s / "a.mkv", mkv(4000, el(0x1043A770, el(0x45B9, el(0xB6, uel(0x73C4, 1) + uel(0x91, 0) + el(0x80, el(0x85, "A")))))));
    MediaFileInfo f{ std::string_view(s / "a.mkv") };
    Diagnostics diag;
    AbortableProgressFeedback progress, aborted;
    f.open(true);
    f.parseContainerFormat(diag, progress);
    aborted.tryToAbort();
    f.parseChapters(diag, aborted);
    return f.chaptersParsingStatus() == ParsingStatus::Ok;
}
"""),
}
