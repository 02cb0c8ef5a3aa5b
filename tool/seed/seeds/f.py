POISON = r"""
#include <cstdlib>
#include <cstring>
#include <new>
void *operator new(std::size_t n)
{
    void *const p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    std::memset(p, 0xA5, n);
    return p;
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
"""
SEEDS = {
'B29-default-flag-of-fields-unset': dict(property='P09', needs='a field created with ID and value (and not default-constructed) in memory which has been used before',
 breaks='the default flag of the field is whatever the memory contained',
 edits=[('generictagfield.h', """    : m_id(id)
    , m_value(value)
    , m_typeInfo(TypeInfoType())
    , m_typeInfoAssigned(false)
    , m_default(false)
""", """    : m_id(id)
    , m_value(value)
    , m_typeInfo(TypeInfoType())
    , m_typeInfoAssigned(false)
""")],
 demo=r"""
#include <tagparser/matroska/matroskatagfield.h>
#include <memory>
#include <vector>
""" + POISON + r"""
int main()
{
    const TagValue v("x", 1, TagTextEncoding::Utf8, TagTextEncoding::Unspecified);
    auto f = std::make_unique<MatroskaTagField>("TITLE", v);
    unsigned char flag;
    const bool b = f->isDefault();
    std::memcpy(&flag, &b, 1);
    return flag ? 1 : 0;
}
"""),
'B30-padding-at-end-of-mp4-unset': dict(property='P09', needs='an MP4 file which is updated in place and left-over stack contents which are not zero',
 breaks='the padding at the end is never set on this path, so whether the file is rewritten depends on left-over stack contents',
 edits=[('mp4/mp4container.cpp', """        newPaddingEnd = 0;
        std::uint64_t currentSum = 0;
""", """        std::uint64_t currentSum = 0;
""")],
 tool='valgrind --error-exitcode=7 -q',
 demo=r"""
int main()
{
    Scratch s;
    save(s / "a.mp4", mp4());
    MediaFileInfo f{ std::string_view(s / "a.mp4") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open();
    f.parseEverything(diag, progress);
    f.setForceRewrite(false);
    f.setMaxPadding(100000);
    f.applyChanges(diag, progress);
    return 0;
}
"""),
'B31-context-of-first-frame-kept': dict(property='P30', needs='two different ID3v2 frames made by one process (of the same or different files) and a problem in the second one',
 breaks='diagnostic messages are attributed to the first frame ever made',
 edits=[('id3/id3v2frame.cpp', """    const string context("making " % m_frame.idToString() + " frame");
""", """    static const string context("making " % m_frame.idToString() + " frame");
""")],
 demo=r"""
#include <tagparser/id3/id3v2frame.h>
#include <tagparser/id3/id3v2frameids.h>
int main()
{
    string contexts[2];
    auto i = 0;
    for (const auto id : { Id3v2FrameIds::lTitle, Id3v2FrameIds::lAlbum }) {
        Diagnostics diag;
        Id3v2Frame frame(id, TagValue("a", 1, TagTextEncoding::Latin1));
        frame.additionalValues().emplace_back("b", 1, TagTextEncoding::Latin1);
        try {
            frame.prepareMaking(3, diag);
        } catch (const Failure &) {
        }
        contexts[i++] = diag.empty() ? string() : diag.back().context();
    }
    if (contexts[0].empty()) return 2;
    return contexts[0] == contexts[1];
}
"""),
}
