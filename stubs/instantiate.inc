// instantiates public members of class templates which the library itself does not call (but its users can), so that they are analysed as well
#include <utility>
namespace VpInst {
#define VP_USE(name, ...)                                                                                                                            \
    template <class T, class = decltype(std::declval<T &>().name(__VA_ARGS__))> void name##_(T *t, int)                                               \
    {                                                                                                                                                \
        t->name(__VA_ARGS__);                                                                                                                        \
    }                                                                                                                                                \
    template <class T> void name##_(T *, ...)                                                                                                        \
    {                                                                                                                                                \
    }
VP_USE(clear)
VP_USE(clearId)
VP_USE(clearValue)
VP_USE(removeTypeInfo)
VP_USE(removeAllFields)
VP_USE(fieldCount)
VP_USE(discardBuffer)
VP_USE(removeAllTags)
VP_USE(removeAllTracks)
VP_USE(reset)
inline void use(TagParser::Id3v2Frame *a, TagParser::Mp4TagField *b, TagParser::MatroskaTagField *c, TagParser::VorbisCommentField *d, TagParser::EbmlElement *e,
    TagParser::Mp4Atom *f, TagParser::Mpeg4Descriptor *g, TagParser::Id3v2Tag *h, TagParser::Mp4Tag *i, TagParser::MatroskaTag *j, TagParser::VorbisComment *k,
    TagParser::Mp4Container *l, TagParser::MatroskaContainer *m, TagParser::OggContainer *n)
{
#define VP_FIELD(x) clear_(x, 0), clearId_(x, 0), clearValue_(x, 0), removeTypeInfo_(x, 0)
    VP_FIELD(a), VP_FIELD(b), VP_FIELD(c), VP_FIELD(d);
#define VP_ELEMENT(x) clear_(x, 0), discardBuffer_(x, 0)
    VP_ELEMENT(e), VP_ELEMENT(f), VP_ELEMENT(g);
#define VP_TAG(x) removeAllFields_(x, 0), fieldCount_(x, 0)
    VP_TAG(h), VP_TAG(i), VP_TAG(j), VP_TAG(k);
#define VP_CONTAINER(x) removeAllTags_(x, 0), removeAllTracks_(x, 0), reset_(x, 0)
    VP_CONTAINER(l), VP_CONTAINER(m), VP_CONTAINER(n);
}
} // namespace VpInst
