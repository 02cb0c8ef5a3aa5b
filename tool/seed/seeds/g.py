SEEDS = {
'B32-placeholder-for-total-never-passed': dict(property='P07', needs='a Vorbis comment with a total field which is just a question mark, parsed with the conversion of total fields enabled',
 breaks='parsing never ends (and uses up all memory)',
 edits=[('vorbis/vorbiscomment.cpp', """        } catch (const ConversionException &e) {
            diag.emplace_back(DiagLevel::Warning, argsToString("Unable to parse \\"", totalField, "\\" as integer: ", e.what()), diagContext);
            totalValues""", """        } catch (const ConversionException &e) {
            if (fieldsIter.first->second.value().toString() == "?") {
                continue; // keep placeholder
            }
            diag.emplace_back(DiagLevel::Warning, argsToString("Unable to parse \\"", totalField, "\\" as integer: ", e.what()), diagContext);
            totalValues""")],
 demo=r"""
int main()
{
    alarm(10);
    const rlimit r{ 2ul << 30, 2ul << 30 };
    setrlimit(RLIMIT_AS, &r);
    Scratch s;
    save(s / "a.ogg", ogg(3, { "TITLE=Old", "TRACKNUMBER=4", "TRACKTOTAL=?" }));
    MediaFileInfo f{ std::string_view(s / "a.ogg") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.setFileHandlingFlags(f.fileHandlingFlags() | MediaFileHandlingFlags::ConvertTotalFields);
    f.open(true);
    f.parseEverything(diag, progress);
    return f.tags().empty();
}
"""),
'B33-empty-meta-atom-never-passed': dict(property='P07', needs='an MP4 file with a "meta" atom in "udta" which has no "ilst" atom',
 breaks='the same "meta" atom is parsed over and over again',
 edits=[('mp4/mp4container.cpp', """            m_tags.back()->parse(*metaAtom, diag);
        } catch (const NoDataFoundException &) {
            m_tags.pop_back();
        }
        if ((metaAtom = metaAtom->siblingById(Mp4AtomIds::Meta, diag))) {
            surplusMetaAtoms = true;
        }
        if (""", """            m_tags.back()->parse(*metaAtom, diag);
            if ((metaAtom = metaAtom->siblingById(Mp4AtomIds::Meta, diag))) {
                surplusMetaAtoms = true;
            }
        } catch (const NoDataFoundException &) {
            m_tags.pop_back();
        }
        if (""")],
 demo=r"""
int main()
{
    alarm(10);
    const rlimit r{ 2ul << 30, 2ul << 30 };
    setrlimit(RLIMIT_AS, &r);
    Scratch s;
    const auto meta = atom("meta", z(4) + atom("hdlr", z(8) + "mdirappl" + z(10)));
    save(s / "a.mp4", ftyp() + atom("moov", mvhd() + trak(0, 0) + atom("udta", meta)) + atom("mdat", string(4000, 'm')));
    MediaFileInfo f{ std::string_view(s / "a.mp4") };
    Diagnostics diag;
    AbortableProgressFeedback progress;
    f.open(true);
    f.parseEverything(diag, progress);
    return f.tagsParsingStatus() == ParsingStatus::NotParsedYet;
}
"""),
}
