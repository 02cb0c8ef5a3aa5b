SEEDS = {
'B01-ogg-io-error-not-restored': dict(property='P10', needs='an IO error (disk full) while an Ogg file is being rewritten',
 breaks='the handler after writing only catches Failure, so an IO error leaves the truncated file in place and the backup is not moved back',
 edits=[('ogg/oggcontainer.cpp', """    } catch (...) {
        m_iterator.setStream(fileInfo().stream());""", """    } catch (const Failure &) {
        m_iterator.setStream(fileInfo().stream());""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.ogg", orig = ogg(40);
    save(p, orig);
    signal(SIGXFSZ, SIG_IGN);
    {
        Diagnostics d;
        AbortableProgressFeedback pr;
        MediaFileInfo f{ string(p) };
        f.open();
        f.parseEverything(d, pr);
        f.createAppropriateTags();
        setTitle(f, string(1000, 'N'));
        rlimit r{ 8192, RLIM_INFINITY }; // writing beyond 8 KiB fails
        setrlimit(RLIMIT_FSIZE, &r);
        try {
            f.applyChanges(d, pr);
            std::cerr << "no failure?!\n";
            return 2;
        } catch (const std::exception &e) {
            std::cerr << e.what() << '\n';
        }
    }
    if (load(p) != orig) {
        std::cerr << "original file has not been restored\n";
        return 1;
    }
    return 0;
}
'''),
'B02-mp3-abort-not-restored': dict(property='P10', needs='aborting while an MP3 file is being rewritten',
 breaks='the save path instead of the backup path is passed to the failure handler, so the original is not moved back',
 edits=[('mediafileinfo.cpp', """    } catch (...) {
        BackupHelper::handleFailureAfterFileModifiedCanonical(*this, originalPath, backupPath, outputStream, backupStream, diag, context);""",
 """    } catch (...) {
        BackupHelper::handleFailureAfterFileModifiedCanonical(*this, originalPath, m_saveFilePath, outputStream, backupStream, diag, context);""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.mp3", orig = mp3(true, true, 4000);
    save(p, orig);
    {
        Diagnostics d;
        AbortableProgressFeedback pr;
        MediaFileInfo f{ string(p) };
        f.open();
        f.parseEverything(d, pr);
        setTitle(f, "New");
        AbortableProgressFeedback ab([](AbortableProgressFeedback &x) { if (x.step().find("Writing") == 0) x.tryToAbort(); }, [](AbortableProgressFeedback &) {});
        try {
            f.applyChanges(d, ab);
            return 2;
        } catch (const OperationAbortedException &) {
        }
    }
    return load(p) == orig ? 0 : 1;
}
'''),
'B03-backup-overwrites': dict(property='P11', needs='an absolute backup directory which already contains a file with the name of the file to be changed',
 breaks='the path within the backup directory is not tested to be unused, so an unrelated file is overwritten',
 edits=[('backuphelper.cpp', """        if (!std::filesystem::exists(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec)) {""",
 """        if ((!backupDir.empty() && !backupDirRelative) || !std::filesystem::exists(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec)) {""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.mp3";
    save(p, mp3());
    mkdir((s / "bak").c_str(), 0700);
    save(s / "bak/f.mp3", "precious");
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.setBackupDirectory(s / "bak");
    f.open();
    f.parseEverything(d, pr);
    setTitle(f, "New");
    f.applyChanges(d, pr);
    f.close();
    return load(s / "bak/f.mp3") == "precious" ? 0 : 1;
}
'''),
'B04-abort-during-copy': dict(property='P12', needs='aborting in the middle of copying the pages of an Ogg file',
 breaks='aborting ends the copy loop silently, so a truncated file is reported as completed',
 edits=[('ogg/oggcontainer.cpp', """            if (updateTick % 10) {
                progress.updateStepPercentage(static_cast<std::uint8_t>(currentPage.startOffset() * 100ul / totalFileSize));
                progress.stopIfAborted();
            }""", """            if (updateTick % 10) {
                progress.updateStepPercentage(static_cast<std::uint8_t>(currentPage.startOffset() * 100ul / totalFileSize));
                if (progress.isAborted()) {
                    break;
                }
            }"""), ('ogg/oggcontainer.cpp', """        progress.nextStepOrStop("Updating checksums ...");""", """        progress.updateStep("Updating checksums ...");"""),
 ('ogg/oggcontainer.cpp', """                progress.updateStepPercentage(static_cast<std::uint8_t>(offset * 100ul / fileInfo().size()));
                progress.stopIfAborted();""", """                progress.updateStepPercentage(static_cast<std::uint8_t>(offset * 100ul / fileInfo().size()));""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.ogg", orig = ogg(200);
    save(p, orig);
    {
        Diagnostics d;
        AbortableProgressFeedback pr;
        MediaFileInfo f{ string(p) };
        f.open();
        f.parseEverything(d, pr);
        setTitle(f, "New");
        AbortableProgressFeedback ab([](AbortableProgressFeedback &) {}, [](AbortableProgressFeedback &x) { if (x.stepPercentage() > 40) x.tryToAbort(); });
        try {
            f.applyChanges(d, ab);
            std::cerr << "reported as completed, size " << load(p).size() << " instead of about " << orig.size() << '\n';
            return 1;
        } catch (const OperationAbortedException &) {
        }
    }
    return load(p) == orig ? 0 : 1;
}
'''),
'B05-apply-without-parsing-tracks': dict(property='P13', needs='applying changes when the container format and the tags but not the tracks have been parsed',
 breaks='a file without container whose tracks have not been parsed yet is modified instead of refusing to apply changes',
 edits=[('mediafileinfo.cpp', '''    switch (tracksParsingStatus()) {
    case ParsingStatus::Ok:
    case ParsingStatus::NotSupported:
        break;
    default:
        previousParsingSuccessful = false;
        diag''', '''    switch (tracksParsingStatus()) {
    case ParsingStatus::Ok:
    case ParsingStatus::NotSupported:
        break;
    case ParsingStatus::NotParsedYet:
        if (!m_container && tagsParsingStatus() == ParsingStatus::Ok) {
            break; // the tags do not depend on tracks in this case
        }
        [[fallthrough]];
    default:
        previousParsingSuccessful = false;
        diag''')],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.mp3", orig = mp3();
    save(p, orig);
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseContainerFormat(d, pr);
    f.parseTags(d, pr);
    setTitle(f, "New");
    try {
        f.applyChanges(d, pr);
        return 1;
    } catch (const Failure &) {
    }
    f.close();
    return load(p) == orig ? 0 : 1;
}
'''),
'B06-stale-results-after-io-error': dict(property='P14', needs='an IO error while applying changes to an MP4 file followed by using the object',
 breaks='results are only cleared for Failure, not for IO errors, so tags/tracks pointing into the old layout stay',
 edits=[('mediafileinfo.cpp', """            m_container->makeFile(diag, progress);
        } catch (...) {""", """            m_container->makeFile(diag, progress);
        } catch (const Failure &) {""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.m4a", orig = mp4(60000);
    save(p, orig);
    signal(SIGXFSZ, SIG_IGN);
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    f.createAppropriateTags();
    setTitle(f, "New");
    rlimit r{ 20000, RLIM_INFINITY };
    setrlimit(RLIMIT_FSIZE, &r);
    try {
        f.applyChanges(d, pr);
        return 2;
    } catch (const std::ios_base::failure &) {
    }
    return f.container() || f.containerFormat() != ContainerFormat::Unknown || f.containerParsingStatus() != ParsingStatus::NotParsedYet;
}
'''),
'B07-parsing-truncates': dict(property='P15', needs='an MP4 file with one to seven trailing bytes after the last atom',
 breaks='trailing padding bytes are cut off the file while its structure is validated',
 edits=[('mp4/mp4container.cpp', """#include "../backuphelper.h"
""", """#include "../backuphelper.h"
#include <filesystem>
"""), ('mp4/mp4container.cpp', """void Mp4Container::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
{""", """static void dropTrailingBytes(MediaFileInfo &file, std::uint64_t endOfLastAtom)
{
    if (file.size() > endOfLastAtom && file.size() - endOfLastAtom < 8) {
        auto ec = std::error_code();
        std::filesystem::resize_file(BasicFileInfo::pathForOpen(file.path()).data(), endOfLastAtom, ec);
    }
}

void Mp4Container::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
{"""), ('mp4/mp4container.cpp', """    m_firstElement->parse(diag);
    auto *const ftypAtom =""", """    m_firstElement->parse(diag);
    auto end = m_firstElement->endOffset();
    for (auto *atom = m_firstElement->siblingById(Mp4AtomIds::Movie, diag); atom; atom = atom->nextSibling()) {
        if (fileInfo().size() - atom->startOffset() < 8) {
            break;
        }
        atom->parse(diag);
        end = atom->endOffset();
    }
    dropTrailingBytes(fileInfo(), end);
    auto *const ftypAtom =""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.m4a", orig = mp4() + string("\0\1\2", 3);
    save(p, orig);
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open(true);
    f.parseEverything(d, pr);
    f.close();
    return load(p) == orig ? 0 : 1;
}
'''),
'B08-save-path-in-place': dict(property='P16', needs='a save path without forcing a rewrite when the new tag fits into the existing space',
 breaks='the original MP3 file is updated in place although a path to save to is set',
 edits=[('mediafileinfo.cpp', """auto rewriteRequired = isForcingRewrite() || !m_saveFilePath.empty() || (tagsSize > streamOffset);""", """auto rewriteRequired = isForcingRewrite() || (tagsSize > streamOffset);""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.mp3", orig = mp3();
    save(p, orig);
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.setForceRewrite(false);
    f.setMaxPadding(1000);
    f.setSaveFilePath(s / "new.mp3");
    f.open();
    f.parseEverything(d, pr);
    setTitle(f, "New");
    f.applyChanges(d, pr);
    f.close();
    return load(p) == orig && exists(s / "new.mp3") ? 0 : 1;
}
'''),
'B09-url-backup-overwrites': dict(property='P17', needs='a file given as file-URL and an existing backup file of the same name',
 breaks='whether the backup path is unused is tested for the URL instead of the local path, so an existing backup is overwritten',
 edits=[('backuphelper.cpp', """std::filesystem::exists(makeNativePath(BasicFileInfo::pathForOpen(backupPath)), ec)) {
            break;""", """std::filesystem::exists(makeNativePath(backupPath), ec)) {
            break;""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.mp3";
    save(p, mp3());
    save(p + ".bak", "precious");
    string backup;
    CppUtilities::NativeFileStream a, b;
    BackupHelper::createBackupFile(string(), "file:/" + p, backup, a, b);
    return load(p + ".bak") == "precious" ? 0 : 1;
}
'''),
'B10-failed-parsing-not-repeatable': dict(property='P24', needs='an IO error or failure while the tracks of a container are parsed for the first time',
 breaks='the container flags its tracks as parsed before parsing them, so a failed attempt counts as completed',
 edits=[('abstractcontainer.cpp', """        internalParseTracks(diag, progress);
        m_tracksParsed = true;""", """        m_tracksParsed = true;
        internalParseTracks(diag, progress);""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.m4a";
    save(p, mp4());
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseContainerFormat(d, pr);
    f.stream().close(); // reading fails
    try {
        f.parseTracks(d, pr);
    } catch (const std::ios_base::failure &) {
    }
    return f.container()->areTracksParsed() && f.tracks().empty();
}
'''),
'B11-write-error-unnoticed': dict(property='P29', needs='a disk error when the checksums of an Ogg file are written',
 breaks='the stream is closed and reopened without having been flushed, so the write error is lost and success is reported',
 edits=[('ogg/oggcontainer.cpp', """        // prevent deferring final write operations (to catch and handle possible errors here)
        stream.flush();
        progress.updateStepPercentage(100);""", """        // prevent deferring final write operations
        progress.updateStepPercentage(100);
        fileInfo().close();
        fileInfo().open();""")],
 demo=r'''
int main()
{
    // the written data is still in the buffer when the changes have been applied; dropping it later must not matter
    Scratch s;
    const auto p = s / "f.ogg";
    save(p, ogg(3));
    signal(SIGXFSZ, SIG_IGN);
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    setTitle(f, "New");
    AbortableProgressFeedback lim([](AbortableProgressFeedback &x) {
        if (x.step().find("Updating checksums") == 0) {
            rlimit r{ 10, RLIM_INFINITY }; // anything written from now on fails
            setrlimit(RLIMIT_FSIZE, &r);
        }
    }, [](AbortableProgressFeedback &) {});
    bool failed = false;
    try {
        f.applyChanges(d, lim);
    } catch (const std::exception &) {
        failed = true;
    }
    rlimit r{ RLIM_INFINITY, RLIM_INFINITY };
    setrlimit(RLIMIT_FSIZE, &r);
    try {
        f.close();
    } catch (...) {
    }
    return failed || oggPagesValid(load(p)) ? 0 : 1;
}
'''),
'B12-conversion-exception-escapes': dict(property='P02', needs='a value which is not convertible to a number assigned to a numeric field of an MP4 tag',
 breaks='a conversion error of a single value escapes from applying changes',
 edits=[('mp4/mp4tagfield.cpp', """    } catch (const ConversionException &e) {""", """    } catch (const InvalidDataException &e) {""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.m4a";
    save(p, mp4());
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    f.createAppropriateTags();
    for (auto *t : f.tags()) {
        t->setValue(KnownField::Title, TagValue("Title"));
        t->setValue(KnownField::TrackPosition, TagValue("not a number"));
        t->setValue(KnownField::Bpm, TagValue("not a number"));
    }
    try {
        f.applyChanges(d, pr);
    } catch (const Failure &) {
    } catch (const std::ios_base::failure &) {
    } catch (const std::exception &e) {
        std::cerr << typeid(e).name() << ' ' << e.what() << '\n';
        return 1;
    }
    return 0;
}
'''),
'B13-parse-leaks-conversion': dict(property='P01', needs='a Vorbis comment with an embedded picture which is not valid base64',
 breaks='conversion error of the picture is not caught, so parsing leaks an undocumented exception',
 edits=[('vorbis/vorbiscommentfield.cpp', """                } catch (const ConversionException &) {
                    diag.emplace_back""", """                } catch (const InvalidDataException &) {
                    diag.emplace_back""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.ogg";
    save(p, ogg(3, { "TITLE=Old", "METADATA_BLOCK_PICTURE=!!!not base64!!!" }));
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    try {
        f.parseEverything(d, pr);
    } catch (const std::ios_base::failure &) {
    } catch (const std::exception &e) {
        std::cerr << typeid(e).name() << ' ' << e.what() << '\n';
        return 1;
    }
    return 0;
}
'''),
}
