SEEDS = {
'B14-id3v22-truncated-frame-dropped-silently': dict(property='P23', needs='an ID3v2.2 tag with a frame whose denoted size exceeds the tag',
 breaks='the frame is dropped when parsing the tag and no diagnostic message tells so',
 edits=[('id3/id3v2frame.cpp', """        m_totalSize = m_dataSize + 6;
        if (m_totalSize > maximalSize) {
            diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
            throw TruncatedDataException();""", """        m_totalSize = m_dataSize + 6;
        if (m_totalSize > maximalSize) {
            throw TruncatedDataException();""")],
 demo=r'''
int main()
{
    Scratch s;
    const auto p = s / "f.mp3";
    save(p, id3v2(string("TT2") + be(4, 3) + z(1) + "Old" + "TP1" + be(0x1000, 3) + z(1) + "cut off", 2) + mpegFrames(20));
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    dump(d);
    return d.level() < DiagLevel::Warning; // the second frame has been ignored
}
'''),

'B15-matroska-field-without-name-dropped-silently': dict(property='P23', needs='writing a Matroska tag with a field that has no name',
 breaks='the field is left out when writing the tag and no diagnostic message tells so',
 edits=[('matroska/matroskatagfield.cpp', """        diag.emplace_back(DiagLevel::Critical, "Can not make \\"SimpleTag\\" element with empty \\"TagName\\".", context);
        throw InvalidDataException();""", """        throw InvalidDataException();""")],
 demo=r"""
#include <tagparser/matroska/matroskatag.h>
int main()
{
    Scratch s;
    const auto p = s / "f.mkv";
    save(p, mkv(4000, el(0x1254C367, mkvTag("Old"))));
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    auto *tag = static_cast<MatroskaTag *>(f.tags().front());
    tag->fields().emplace("", MatroskaTagField(string(), TagValue(string("value"))));
    Diagnostics d2;
    f.applyChanges(d2, pr);
    dump(d2);
    return d2.level() < DiagLevel::Critical; // the field has been left out
}
"""),

'B16-mp4-fragment-duration-divides-by-zero': dict(property='P03', needs='a fragmented MP4 file with a "mehd" atom and a movie time scale of zero',
 breaks='the duration of the fragments is divided by the time scale using integer arithmetic, so the process is killed by SIGFPE',
 edits=[('mp4/mp4container.cpp', """m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));""",
 """m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE())) / static_cast<TimeSpan::TickType>(m_timeScale);""")],
 demo=r"""
int main()
{
    Scratch s;
    const auto p = s / "f.mp4";
    save(p, ftyp() + atom("moov", mvhd(0) + trak(0, 0)) + atom("mvex", atom("mehd", z(4) + be(1000, 4))) + atom("mdat", string(100, 'm')));
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    return f.tracks().empty();
}
"""),
'B17-wav-sample-rate-zero-divides-by-zero': dict(property='P03', needs='a WAVE file with a sample rate of zero',
 breaks='the number of samples is divided by the sampling frequency using integer arithmetic, so the process is killed by SIGFPE',
 edits=[('wav/waveaudiostream.cpp', """m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));""",
 """m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_sampleCount / m_samplingFrequency));""")],
 demo=r"""
int main()
{
    Scratch s;
    const auto p = s / "f.wav";
    const auto body = "WAVEfmt " + le(16, 4) + le(1, 2) + le(2, 2) + le(0, 4) + le(0, 4) + le(4, 2) + le(16, 2) + "data" + le(400, 4) + z(400);
    save(p, "RIFF" + le(body.size(), 4) + body);
    Diagnostics d;
    AbortableProgressFeedback pr;
    MediaFileInfo f{ string(p) };
    f.open();
    f.parseEverything(d, pr);
    return f.tracks().empty();
}
"""),
}
