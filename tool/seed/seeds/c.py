SEEDS = {
'B18-matroska-empty-segment-dereferences-null': dict(property='P04', needs='applying changes to a Matroska file with an additional, empty "Segment" element',
 breaks='the first child of the empty segment does not exist but is dereferenced, so the process is killed by SIGSEGV',
 edits=[('matroska/matroskacontainer.cpp', """segment.hasCrc32 = level0Element->firstChild() && level0Element->firstChild()->id() == EbmlIds::Crc32;""",
 """segment.hasCrc32 = level0Element->firstChild()->id() == EbmlIds::Crc32;""")],
 demo=r"""
int main()
{
    Scratch s;
    const auto p = s / "f.mkv";
    save(p, mkv(4000, el(0x1254C367, mkvTag("Old"))) + el(0x18538067, string()));
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    if (f.tags().empty()) return 2;
    f.tags().front()->setValue(KnownField::Title, TagValue(string("a new and longer title for the file")));
    f.setForceRewrite(true);
    Diagnostics d2;
    try { f.applyChanges(d2, pr); } catch (const Failure &) { }
    dump(d2);
    return 0; // not killed
}
"""),
}
SEEDS.update({
'B19-ebml-size-denotation-boundary': dict(property='P19', needs='an element of a particular size (2097151 bytes), e.g. a Matroska attachment of that size',
 breaks='the length is computed as 3 bytes but the reserved pattern "unknown size" results / 4 bytes are written',
 edits=[('matroska/ebmlelement.cpp', """    } else if (size <= 2097150ul) {
        return 3;""", """    } else if (size <= 2097151ul) {
        return 3;""")],
 demo=r"""
#include <tagparser/matroska/ebmlelement.h>
int main()
{
    for (unsigned bits = 7; bits <= 56; bits += 7) {
        for (long long d = -4; d <= 4; ++d) {
            const auto v = static_cast<std::uint64_t>((1ll << bits) + d);
            char buf[16] = {};
            int calculated = -1, made = -1;
            try { calculated = EbmlElement::calculateSizeDenotationLength(v); } catch (const Failure &) { }
            try { made = EbmlElement::makeSizeDenotation(v, buf); } catch (const Failure &) { }
            if (calculated != made) return 1;
        }
    }
    return 0;
}
"""),
'B20-vorbis-publisher-webpage-not-read-back': dict(property='P25', needs='a Vorbis comment with the field for the publisher webpage',
 breaks='the identifier used when setting the publisher webpage is read as another generic field',
 edits=[('vorbis/vorbiscomment.cpp', """{ publisherWebpage(), KnownField::PublisherWebpage },""", """{ publisherWebpage(), KnownField::PerformerWebpage },""")],
 demo=r"""
#include <tagparser/vorbis/vorbiscomment.h>
int main()
{
    VorbisComment c;
    for (auto f = firstKnownField; f != KnownField::Invalid; f = nextKnownField(f)) {
        const auto id = c.fieldId(f);
        if (!id.empty() && c.knownField(id) != f) return 1;
    }
    return 0;
}
"""),
})
