// builds small media files in memory and provides helpers for the demonstrations
#pragma once
#include <tagparser/abstracttrack.h>
#include <tagparser/basicfileinfo.h>
#include <tagparser/backuphelper.h>
#include <tagparser/diagnostics.h>
#include <tagparser/exceptions.h>
#include <tagparser/mediafileinfo.h>
#include <tagparser/progressfeedback.h>
#include <tagparser/tag.h>
#include <tagparser/tagvalue.h>
#include <c++utilities/conversion/stringbuilder.h>
#include <c++utilities/io/nativefilestream.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using namespace TagParser;
using std::string;
namespace media {
inline string be(std::uint64_t v, int n) { string r; for (int i = n - 1; i >= 0; --i) r += static_cast<char>(v >> (8 * i)); return r; }
inline string le(std::uint64_t v, int n) { string r; for (int i = 0; i < n; ++i) r += static_cast<char>(v >> (8 * i)); return r; }
inline string z(std::size_t n) { return string(n, '\0'); }
inline void save(const string &p, const string &d) { std::ofstream o(p, std::ios::binary | std::ios::trunc); o.write(d.data(), static_cast<std::streamsize>(d.size())); }
inline string load(const string &p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
// --- ID3 / MP3
inline string synchsafe(std::uint32_t n) { string r; for (int s = 21; s >= 0; s -= 7) r += static_cast<char>((n >> s) & 127); return r; }
inline string frame23(const string &id, const string &body) { return id + be(body.size(), 4) + z(2) + body; }
inline string id3v2(const string &frames, int version = 3) { return string("ID3") + char(version) + z(2) + synchsafe(static_cast<std::uint32_t>(frames.size())) + frames; }
inline string id3v1(const string &title) { string r = "TAG" + title; r.resize(127, '\0'); return r + char(12); }
inline string mpegFrames(int n) { string f = string("\xff\xfb\x90\x00", 4) + z(413), r; while (n--) r += f; return r; }
inline string mp3(bool v2 = true, bool v1 = false, int frames = 20) { return (v2 ? id3v2(frame23("TIT2", z(1) + "Old") + z(32)) : string()) + mpegFrames(frames) + (v1 ? id3v1("Old") : string()); }
// --- MP4
inline string atom(const string &id, const string &body) { return be(body.size() + 8, 4) + id + body; }
inline string mvhd(std::uint32_t timeScale = 1000, std::uint32_t duration = 1000) { return atom("mvhd", z(4) + z(8) + be(timeScale, 4) + be(duration, 4) + be(0x10000, 4) + z(76) + be(2, 4)); }
inline string stco(std::vector<std::uint32_t> o) { string b = z(4) + be(o.size(), 4); for (auto v : o) b += be(v, 4); return atom("stco", b); }
inline string trak(std::uint32_t chunkOffset, std::uint32_t size, std::uint32_t timeScale = 44100) {
    const string mp4a = atom("mp4a", z(6) + be(1, 2) + z(8) + be(2, 2) + be(16, 2) + z(4) + be(44100u << 16, 4));
    const string stbl = atom("stbl", atom("stsd", z(4) + be(1, 4) + mp4a) + atom("stts", z(4) + be(1, 4) + be(1, 4) + be(1024, 4))
            + atom("stsc", z(4) + be(1, 4) + be(1, 4) + be(1, 4) + be(1, 4)) + atom("stsz", z(4) + be(0, 4) + be(1, 4) + be(size, 4)) + stco({ chunkOffset }));
    const string minf = atom("minf", atom("smhd", z(8)) + atom("dinf", atom("dref", z(4) + be(1, 4) + atom("url ", be(1, 4)))) + stbl);
    const string mdia = atom("mdia", atom("mdhd", z(4) + z(8) + be(timeScale, 4) + be(44100, 4) + be(0x55c4, 2) + z(2)) + atom("hdlr", z(4) + z(4) + "soun" + z(12) + z(1)) + minf);
    return atom("trak", atom("tkhd", be(7, 4) + z(8) + be(1, 4) + z(4) + be(1000, 4) + z(60)) + mdia);
}
inline string ftyp() { return atom("ftyp", "M4A " + be(0, 4) + "M4A mp42"); }
inline string mp4(std::size_t mediaSize = 4000, std::uint32_t movieTimeScale = 1000, bool mdatFirst = false) {
    const string head = ftyp(), data(mediaSize, 'm');
    if (mdatFirst) return head + atom("mdat", data) + atom("moov", mvhd(movieTimeScale) + trak(static_cast<std::uint32_t>(head.size() + 8), static_cast<std::uint32_t>(mediaSize)));
    const auto moovSize = atom("moov", mvhd(movieTimeScale) + trak(0, 0)).size();
    return head + atom("moov", mvhd(movieTimeScale) + trak(static_cast<std::uint32_t>(head.size() + moovSize + 8), static_cast<std::uint32_t>(mediaSize))) + atom("mdat", data);
}
// --- Matroska
inline string el(std::uint32_t id, const string &body) {
    string r = be(id, id > 0xffffff ? 4 : id > 0xffff ? 3 : id > 0xff ? 2 : 1);
    return r + be(0x0100000000000000ull | body.size(), 8) + body;
}
inline string uel(std::uint32_t id, std::uint64_t v, int n = 4) { return el(id, be(v, n)); }
inline string ebmlHeader() { return el(0x1A45DFA3, uel(0x4286, 1, 1) + uel(0x42F7, 1, 1) + uel(0x42F2, 4, 1) + uel(0x42F3, 8, 1) + el(0x4282, "matroska") + uel(0x4287, 4, 1) + uel(0x4285, 2, 1)); }
inline string mkvInfo() { return el(0x1549A966, uel(0x2AD7B1, 1000000) + el(0x4489, be(0x447a400000000000ull >> 32, 4)) + el(0x4D80, "demo") + el(0x5741, "demo")); }
inline string mkvTracks() { return el(0x1654AE6B, el(0xAE, uel(0xD7, 1, 1) + uel(0x73C5, 1, 1) + uel(0x83, 2, 1) + el(0x86, "A_VORBIS") + el(0xE1, el(0xB5, be(0x472c4400, 4)) + uel(0x9F, 2, 1)))); }
inline string mkvCluster(std::size_t n) { return el(0x1F43B675, uel(0xE7, 0, 1) + el(0xA3, string("\x81\0\0\x80", 4) + string(n, 'm'))); }
inline string mkvTag(const string &title, const string &targets = string()) { return el(0x7373, el(0x63C0, targets) + el(0x67C8, el(0x45A3, "TITLE") + el(0x447A, "und") + uel(0x4484, 1, 1) + el(0x4487, title))); }
inline string mkv(std::size_t mediaSize = 4000, const string &extra = string(), int clusters = 1) {
    string body = mkvInfo() + mkvTracks() + extra;
    for (int i = 0; i < clusters; ++i) body += mkvCluster(mediaSize);
    return ebmlHeader() + el(0x18538067, body);
}
// --- Ogg
inline std::uint32_t oggCrc(const string &d) {
    std::uint32_t c = 0;
    for (unsigned char b : d) { c ^= static_cast<std::uint32_t>(b) << 24; for (int i = 0; i < 8; ++i) c = (c & 0x80000000u) ? (c << 1) ^ 0x04c11db7u : c << 1; }
    return c;
}
inline string oggPage(const std::vector<string> &packets, int flags, std::uint64_t granule, std::uint32_t seq, std::uint32_t serial = 1) {
    string lace, body;
    for (auto &p : packets) { auto n = p.size(); while (n >= 255) lace += char(255), n -= 255; lace += char(n); body += p; }
    string h = string("OggS") + char(0) + char(flags) + le(granule, 8) + le(serial, 4) + le(seq, 4);
    const string tail = string(1, char(lace.size())) + lace + body;
    return h + le(oggCrc(h + z(4) + tail), 4) + tail;
}
inline bool oggPagesValid(const string &f, int *count = nullptr) {
    std::size_t o = 0; int n = 0;
    while (o + 27 <= f.size()) {
        if (f.compare(o, 4, "OggS")) return false;
        const auto segs = static_cast<unsigned char>(f[o + 26]); std::size_t len = 27u + segs;
        for (unsigned i = 0; i < segs; ++i) len += static_cast<unsigned char>(f[o + 27 + i]);
        string p = f.substr(o, len); if (p.size() != len) return false;
        const auto crc = p.substr(22, 4); p.replace(22, 4, z(4));
        if (le(oggCrc(p), 4) != crc) return false;
        o += len; ++n;
    }
    if (count) *count = n;
    return o == f.size() && n;
}
inline string vorbisId() { return string("\x01vorbis") + z(4) + char(2) + le(44100, 4) + z(4) + le(128000, 4) + z(4) + char(0xb8) + char(1); }
inline string vorbisComment(const std::vector<string> &f) { string r = string("\x03vorbis") + le(4, 4) + "demo" + le(f.size(), 4); for (auto &s : f) r += le(s.size(), 4) + s; return r + char(1); }
inline string ogg(int dataPages = 3, const std::vector<string> &fields = { "TITLE=Old" }) {
    string r = oggPage({ vorbisId() }, 2, 0, 0) + oggPage({ vorbisComment(fields), string("\x05vorbis") + string(60, 's') }, 0, 0, 1);
    for (int i = 0; i < dataPages; ++i) r += oggPage({ string(300, 'd'), string(100, 'e') }, i + 1 == dataPages ? 4 : 0, 1024u * static_cast<unsigned>(i + 1), static_cast<std::uint32_t>(2 + i));
    return r;
}
// --- FLAC
inline string flac(std::size_t padding = 64, const string &blocks = string()) {
    const string si = be(4096, 2) + be(4096, 2) + be(0, 3) + be(0, 3) + be((44100ull << 44) | (1ull << 41) | (15ull << 36) | 44100u, 8) + z(16);
    return "fLaC" + be(0, 1) + be(si.size(), 3) + si + blocks + be(0x81, 1) + be(padding, 3) + z(padding) + string("\xff\xf8\xc9\x18") + string(2000, 'f');
}
// --- scratch directory
struct Scratch {
    string dir;
    Scratch() { char t[] = "/tmp/tpdemoXXXXXX"; dir = mkdtemp(t); }
    ~Scratch() { std::error_code ec; std::filesystem::remove_all(dir, ec); }
    string operator/(const string &n) const { return dir + "/" + n; }
};
inline void setTitle(MediaFileInfo &f, const string &t) { for (auto *tag : f.tags()) tag->setValue(KnownField::Title, TagValue(t)); }
inline bool exists(const string &p) { struct stat s; return stat(p.c_str(), &s) == 0; }
inline void dump(const Diagnostics &d) { for (auto &m : d) std::cerr << "  [" << m.levelName() << "] " << m.message() << " (" << m.context() << ")\n"; }
}
