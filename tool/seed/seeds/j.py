OGG_DEMO = r"""
int main()
{
    Scratch s;
    const auto p = s / "a.ogg";
    %s
    save(p, content);
    {
        MediaFileInfo f{ string(p) };
        Diagnostics diag;
        AbortableProgressFeedback progress;
        f.open();
        f.parseEverything(diag, progress);
        setTitle(f, %s);
        f.applyChanges(diag, progress);
        dump(diag);
    }
    int pages = 0;
    return oggPagesValid(load(p), &pages) && pages >= %s ? 0 : 4;
}
"""
SEEDS = {
'B40-last-page-flag-without-checksum': dict(property='P20', needs='an Ogg file whose last page does not have the "last page"-flag set (e.g. an aborted recording) and is not otherwise modified',
 breaks='the flag is set on the last page but its checksum is not recomputed',
 edits=[('ogg/oggcontainer.cpp', '''                updatedPageOffsets.emplace_back(lastPageNewOffset);
                stream.seekp(offset);
                stream.put(static_cast<char>(flag | 0x04));
            }
        }
''', '''                if (!updatedPageOffsets.empty() && updatedPageOffsets.back() < lastPageNewOffset) {
                    // the page has been copied so far
                    updatedPageOffsets.back() = lastPageNewOffset;
                }
                stream.seekp(offset);
                stream.put(static_cast<char>(flag | 0x04));
            }
        }
''')],
 demo=OGG_DEMO % ('''auto content = ogg(0);
    content += oggPage({ string(300, 'd') }, 0, 1024u, 2);''', '"New"', '3')),
'B41-checksum-of-additional-pages': dict(property='P20', needs='a comment which does not fit into a single Ogg page anymore',
 breaks='only the checksum of the first of the pages the comment is spread over is recomputed',
 edits=[('ogg/oggcontainer.cpp', '''                    // write pages until all data in the buffer is written
                    while (newSegmentSizesIterator != newSegmentSizesEnd) {
                        // memorize offset to update checksum later
                        updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
''', '''                    // memorize offset to update checksum later
                    updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
                    // write pages until all data in the buffer is written
                    while (newSegmentSizesIterator != newSegmentSizesEnd) {
''')],
 demo=OGG_DEMO % ('auto content = ogg(3);', 'string(150000, \'x\')', '6')),
}
