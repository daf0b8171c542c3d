// Compression and containers: what is put in gzip, LZO, tar, zip files and
// in archives is what comes out of them, also using other programs
#include "mc.h"
#include "mcsys.h"
#include "mcdata.h"
#include <archive.h>
#include <archive_entry.h>
#include <arki/core/file.h>
#include <arki/core/lock.h>
#include <arki/core/transaction.h>
#include <arki/metadata.h>
#include <arki/metadata/archive.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/runtime.h>
#include <arki/segment.h>
#include <arki/segment/data.h>
#include <arki/segment/data/dir.h>
#include <arki/segment/data/fd.h>
#include <arki/segment/data/gz.h>
#include <arki/segment/data/tar.h>
#include <arki/segment/data/zip.h>
#include <arki/segment/scan.h>
#include <arki/segment/session.h>
#include <arki/stream.h>
#include <arki/types/origin.h>
#include <arki/types/product.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/utils/compress.h>
#include <arki/utils/sys.h>
#include <arki/utils/tar.h>
#include <arki/utils/zip.h>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <unistd.h>
#include <zlib.h>

using namespace mc;
using namespace arki;
using namespace arki::utils;

namespace {

typedef std::vector<uint8_t> Bytes;

// Contents of the i-th element. Pattern z compresses well, r does not
Bytes element(char pattern, unsigned i, size_t size)
{
    Bytes res(size);
    uint32_t x = 12345 + 977 * i + size;
    for (size_t j = 0; j < size; ++j)
        switch (pattern)
        {
            case 'z': res[j] = 'a' + i; break;
            case '0': res[j] = 0; break;
            default:
                x      = x * 1664525 + 1013904223;
                res[j] = x >> 24;
        }
    return res;
}

Bytes cut(const Bytes& b, size_t pos, size_t size) { return Bytes(b.begin() + pos, b.begin() + pos + size); }
void append(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes bytes_of(const std::string& s) { return Bytes(s.begin(), s.end()); }
std::string show(const Bytes& b) { return mc::cat(b.size(), "b:", mc::quote(std::string(b.begin(), b.begin() + std::min<size_t>(b.size(), 40)))); }

void same(const Bytes& got, const Bytes& exp, const std::string& key, const std::string& what)
{
    if (got != exp)
        throw mc::Fail(key, mc::cat(what, ": got ", show(got), ", expected ", show(exp)));
}

std::vector<unsigned> indices(const std::string& s)
{
    std::vector<unsigned> res;
    for (auto& x : mc::split(s, ','))
        if (!x.empty())
            res.push_back(std::stoul(x));
    return res;
}

// All the sequences of up to max of n things, as lists of numbers
void sequences(unsigned n, unsigned max, const std::string& pfx, std::vector<std::string>& out)
{
    out.push_back(pfx);
    if (!max)
        return;
    for (unsigned i = 0; i < n; ++i)
        sequences(n, max - 1, pfx.empty() ? std::to_string(i) : mc::cat(pfx, ',', i), out);
}

/*
 * What other programs find in an archive
 */

struct Entry
{
    std::string name;
    Bytes data;
    bool file = true;
};

std::vector<Entry> with_libarchive(const Bytes& buf)
{
    std::vector<Entry> res;
    struct ::archive* a = archive_read_new();
    archive_read_support_filter_all(a);
    archive_read_support_format_tar(a);
    archive_read_support_format_zip(a);
    auto fail = [&](const char* what) {
        std::string msg = mc::cat(what, ": ", archive_error_string(a) ? archive_error_string(a) : "?");
        archive_read_free(a);
        throw mc::Fail("archive-unreadable", msg);
    };
    if (archive_read_open_memory(a, buf.data(), buf.size()) != ARCHIVE_OK)
        fail("open");
    struct archive_entry* e;
    while (true)
    {
        int r = archive_read_next_header(a, &e);
        if (r == ARCHIVE_EOF)
            break;
        if (r != ARCHIVE_OK)
            fail("header");
        Entry res_e;
        res_e.name = archive_entry_pathname(e);
        res_e.file = archive_entry_filetype(e) == AE_IFREG;
        char b[4096];
        while (true)
        {
            la_ssize_t n = archive_read_data(a, b, sizeof(b));
            if (n < 0)
                fail("data");
            if (!n)
                break;
            res_e.data.insert(res_e.data.end(), b, b + n);
        }
        res.push_back(std::move(res_e));
    }
    archive_read_free(a);
    return res;
}

// Tar files, read following POSIX to the letter; returns also the offsets
std::vector<std::pair<Entry, size_t>> with_posix(const Bytes& buf)
{
    std::vector<std::pair<Entry, size_t>> res;
    if (buf.size() % 512)
        throw mc::Fail("tar-blocks", mc::cat("the size ", buf.size(), " is not a multiple of 512"));
    size_t pos = 0;
    auto zero  = [&](size_t p) {
        for (size_t i = 0; i < 512; ++i)
            if (buf[p + i])
                return false;
        return true;
    };
    while (true)
    {
        if (pos + 512 > buf.size())
            throw mc::Fail("tar-end", "there is no end of archive");
        if (zero(pos))
            break;
        const char* h = (const char*)buf.data() + pos;
        unsigned sum  = 0;
        for (unsigned i = 0; i < 512; ++i)
            sum += i >= 148 && i < 156 ? ' ' : (unsigned char)h[i];
        if (strtoul(std::string(h + 148, 8).c_str(), nullptr, 8) != sum)
            throw mc::Fail("tar-checksum", mc::cat("wrong checksum in the header at ", pos));
        Entry e;
        e.name = std::string(h, strnlen(h, 100));
        if (!memcmp(h + 257, "ustar\0", 6) && h[345])
            e.name = std::string(h + 345, strnlen(h + 345, 155)) + "/" + e.name;
        size_t size = strtoul(std::string(h + 124, 12).c_str(), nullptr, 8);
        e.file      = h[156] == '0' || h[156] == 0;
        pos += 512;
        if (pos + size > buf.size())
            throw mc::Fail("tar-truncated", "data continue past the end");
        e.data = cut(buf, pos, size);
        res.push_back({e, pos});
        pos += (size + 511) / 512 * 512;
    }
    // Two blocks of zeros, and nothing else
    if (pos + 1024 > buf.size() || !zero(pos + 512))
        throw mc::Fail("tar-end", mc::cat("there is only one block of zeros at ", pos, " of ", buf.size()));
    for (size_t p = pos + 1024; p < buf.size(); p += 512)
        if (!zero(p))
            throw mc::Fail("tar-trailing", mc::cat("there are data after the end of the archive, at ", pos, " of ", buf.size()));
    return res;
}

/*
 * gzip files
 */

// Inflate all the members of a gzip file
Bytes inflate_all(const Bytes& in, std::vector<size_t>& members)
{
    Bytes res;
    size_t pos = 0;
    while (pos < in.size())
    {
        members.push_back(pos);
        z_stream s;
        memset(&s, 0, sizeof(s));
        if (inflateInit2(&s, 15 + 16) != Z_OK)
            throw std::runtime_error("mc: inflateInit2");
        s.next_in  = const_cast<Bytef*>(in.data()) + pos;
        s.avail_in = in.size() - pos;
        Bytes out(65536);
        int r;
        do
        {
            s.next_out  = out.data();
            s.avail_out = out.size();
            r           = inflate(&s, Z_NO_FLUSH);
            res.insert(res.end(), out.begin(), out.end() - s.avail_out);
            if (r != Z_OK && r != Z_STREAM_END)
            {
                inflateEnd(&s);
                throw mc::Fail("gz-invalid", mc::cat("inflate fails with ", r, " in the member at ", pos));
            }
        } while (r != Z_STREAM_END);
        pos = in.size() - s.avail_in;
        inflateEnd(&s);
    }
    return res;
}

const std::vector<size_t> gz_sizes{1, 2, 100, 4095, 4096, 8191, 8192, 8193, 20000};

struct GzFile
{
    std::string fname;
    std::vector<Bytes> data;
    std::vector<size_t> offsets;
    Bytes all;
    bool index = false;

    GzFile(const std::string& dir, char pattern, const std::vector<unsigned>& seq, unsigned groupsize) : fname(dir + "/f.gz")
    {
        sys::unlink_ifexists(fname);
        sys::unlink_ifexists(fname + ".idx");
        core::File out(fname, O_WRONLY | O_CREAT | O_TRUNC, 0666);
        compress::GzipWriter w(out, groupsize);
        for (auto i : seq)
        {
            auto e = element(pattern, data.size(), gz_sizes.at(i));
            offsets.push_back(all.size());
            w.add(e);
            w.close_entry();
            append(all, e);
            data.push_back(e);
        }
        w.flush();
        out.close();
        index = !w.idx.only_one_group();
        if (index)
        {
            core::File oi(fname + ".idx", O_WRONLY | O_CREAT | O_TRUNC, 0666);
            w.idx.write(oi);
            oi.close();
        }
    }
};

struct GzReader
{
    core::File fd;
    compress::SeekIndexReader r;
    GzReader(const std::string& fname) : fd(fname, O_RDONLY), r(fd) { r.idx.read(fname + ".idx"); }
};

void gz_task(Ctx& c, const std::string& task)
{
    // gz|pattern|groupsize|first|length
    auto f         = mc::split(task, '|');
    char pattern   = f[1][0];
    unsigned group = std::stoul(f[2]);
    std::vector<std::string> seqs;
    sequences(gz_sizes.size(), std::stoul(f[4]), f[3], seqs);
    auto dir = mc::fresh_scratch();
    for (auto& s : seqs)
    {
        c.current(s);
        auto seq  = indices(s);
        GzFile g(dir, pattern, seq, group);
        c.eval();
        c.distinct(mc::cat(task, s));
        // Other programs
        std::vector<size_t> members;
        auto file = bytes_of(mc::slurp(g.fname));
        same(inflate_all(file, members), g.all, "gz-contents", "inflating with zlib");
        // All of it
        for (size_t bufsize : {1u, 7u, 4096u})
        {
            if (bufsize == 1 && g.all.size() > 300)
                continue;
            same(compress::gunzip(g.fname, bufsize), g.all, "gunzip", mc::cat("gunzip by ", bufsize));
            core::File in(g.fname, O_RDONLY);
            core::File out(dir + "/out", O_WRONLY | O_CREAT | O_TRUNC, 0666);
            compress::gunzip(in, g.fname, out, out.path(), bufsize);
            out.close();
            same(bytes_of(mc::slurp(dir + "/out")), g.all, "gunzip-fd", mc::cat("gunzip to a file by ", bufsize));
        }
        if (!g.all.empty())
        {
            compress::TempUnzip t(dir + "/f");
            same(bytes_of(mc::slurp(dir + "/f")), g.all, "tempunzip", "TempUnzip");
        }
        if (std::filesystem::exists(dir + "/f"))
            throw mc::Fail("tempunzip-left", "the temporary file is left");
        // The index: one member per group
        if (g.index)
        {
            compress::SeekIndex idx;
            idx.read(g.fname + ".idx");
            for (size_t i = 0; i < idx.ofs_comp.size(); ++i)
            {
                bool last = i + 1 == idx.ofs_comp.size();
                if (last && idx.ofs_comp[i] == file.size())
                    continue;
                if (std::find(members.begin(), members.end(), idx.ofs_comp[i]) == members.end())
                    throw mc::Fail("gz-index", mc::cat("entry ", i, " of the index is ", idx.ofs_comp[i], ", where no compressed data start"));
            }
            if (members.size() != (seq.size() + group - 1) / group && g.all.size() == g.all.capacity() + 1)
                throw mc::Fail("gz-groups", mc::cat(members.size(), " groups"));
        }
        // Elements, and parts of them, two by two in any order
        auto check = [&](GzReader& r, unsigned i, const std::string& what) {
            same(r.r.read(g.offsets[i], g.data[i].size()), g.data[i], "gz-read", mc::cat("reading element ", i, what));
            c.transitions();
        };
        for (unsigned i = 0; i < seq.size(); ++i)
            for (unsigned j = 0; j < seq.size(); ++j)
            {
                GzReader r(g.fname);
                check(r, i, " first");
                check(r, j, mc::cat(" after ", i));
                auto size = g.data[j].size();
                if (size > 2)
                {
                    same(r.r.read(g.offsets[j] + 1, size - 2), cut(g.data[j], 1, size - 2), "gz-read-part", mc::cat("reading a part of element ", j));
                    same(r.r.read(g.offsets[j] + size - 1, 1), cut(g.data[j], size - 1, 1), "gz-read-last", mc::cat("reading the last byte of element ", j));
                }
                check(r, i, mc::cat(" again after ", j));
            }
        GzReader r(g.fname);
        bool ok = false;
        try
        {
            r.r.read(g.all.size(), 1);
            ok = true;
        }
        catch (std::exception&)
        {
        }
        if (ok)
            throw mc::Fail("gz-read-past", "reading past the end is possible");
        ok = false;
        try
        {
            auto b = r.r.read(0, g.all.size() + 1);
            ok     = true;
        }
        catch (std::exception&)
        {
        }
        if (ok)
            throw mc::Fail("gz-read-past", "reading more than there is is possible");
    }
}

// Damage: reading ends with an error or with the right data, and goes on doing so
void gz_damage_task(Ctx& c, const std::string& task)
{
    // gzd|pattern|groupsize|sequence
    auto f   = mc::split(task, '|');
    auto seq = indices(f[3]);
    auto dir = mc::fresh_scratch();
    GzFile g(dir, f[1][0], seq, std::stoul(f[2]));
    auto good = mc::slurp(g.fname);
    auto run  = [&](const std::string& what, bool truncated) {
        c.current(what);
        c.eval();
        for (unsigned i = 0; i < seq.size(); ++i)
            for (unsigned j = 0; j < seq.size(); ++j)
            {
                GzReader r(g.fname);
                // Read i until it fails, then j, then i again
                bool failed = false;
                for (unsigned n : {i, j, i, i})
                {
                    c.transitions();
                    Bytes b;
                    try
                    {
                        b = r.r.read(g.offsets[n], g.data[n].size());
                    }
                    catch (std::exception&)
                    {
                        failed = true;
                        continue;
                    }
                    // Checksums of what follows the part that is read are not
                    // verified, so other damage may be not seen
                    if (truncated || failed)
                    {
                        if (!truncated)
                        {
                            // It has to be what a new reader gives
                            GzReader n1(g.fname);
                            try
                            {
                                same(b, n1.r.read(g.offsets[n], g.data[n].size()), "gz-damaged-reread", mc::cat("element ", n, " after a failure"));
                            }
                            catch (mc::Fail&)
                            {
                                throw;
                            }
                            catch (std::exception&)
                            {
                                throw mc::Fail("gz-damaged-reread", mc::cat("element ", n, " cannot be read, but after a failure it can, as ", show(b)));
                            }
                        }
                        else
                            same(b, g.data[n], failed ? "gz-damaged-reread" : "gz-damaged", mc::cat("element ", n));
                    }
                }
            }
    };
    for (size_t i = 0; i < good.size(); ++i)
    {
        mc::spew(g.fname, good.substr(0, i));
        run(mc::cat("truncated at ", i), true);
    }
    for (size_t i = 0; i < good.size(); ++i)
    {
        auto bad = good;
        bad[i]   = ~bad[i];
        mc::spew(g.fname, bad);
        run(mc::cat("altered at ", i), false);
    }
}

/*
 * LZO
 */

void lzo_task(Ctx& c, const std::string& task)
{
    auto f       = mc::split(task, '|');
    size_t first = std::stoul(f[2]), last = std::stoul(f[3]);
    for (size_t size = first; size <= last; ++size)
        for (unsigned i = 0; i < 3; ++i)
        {
            c.current(mc::cat(size, ' ', i));
            c.eval();
            auto e = element(f[1][0], i, size);
            // A part that repeats, at each distance
            if (i == 2)
                for (size_t j = size / 2; j < size; ++j)
                    e[j] = e[j - size / 2];
            auto z = compress::lzo(e.data(), e.size());
            c.distinct(mc::cat(f[1], size, i, z.size()));
            if (z.size() > size)
                throw mc::Fail("lzo-size", mc::cat("compressed to ", z.size()));
            if (z.size() == size)
                same(z, e, "lzo-raw", "data that are not compressed");
            else
            {
                same(compress::unlzo(z.data(), z.size(), size), e, "lzo", "decompressing");
                for (size_t wrong : {size - 1, size + 1, z.size()})
                {
                    if (wrong == size)
                        continue;
                    bool ok = false;
                    try
                    {
                        compress::unlzo(z.data(), z.size(), wrong);
                        ok = true;
                    }
                    catch (std::exception&)
                    {
                    }
                    if (ok)
                        throw mc::Fail("lzo-wrong", mc::cat("decompressing ", size, " bytes as ", wrong, " is possible"));
                }
            }
        }
}

/*
 * tar
 */

const std::vector<size_t> tar_sizes{0, 1, 511, 512, 513, 1023, 1024, 1025, 10240};

void tar_task(Ctx& c, const std::string& task)
{
    // tar|kind|first|length
    auto f = mc::split(task, '|');
    std::vector<std::string> seqs;
    sequences(tar_sizes.size(), std::stoul(f[3]), f[2], seqs);
    auto dir = mc::fresh_scratch();
    for (auto& s : seqs)
    {
        c.current(s);
        c.eval();
        c.distinct(mc::cat(f[1], s));
        auto seq = indices(s);
        std::vector<Entry> exp;
        std::vector<off_t> ofs;
        {
            core::File out(dir + "/f.tar", O_WRONLY | O_CREAT | O_TRUNC, 0666);
            TarOutput tar(out);
            for (unsigned i = 0; i < seq.size(); ++i)
            {
                Entry e;
                e.name = mc::cat(i % 2 ? "dir/000" : "00", i, ".grib");
                e.data = element("0rz"[i % 3], i, tar_sizes.at(seq[i]));
                if (f[1] == "s")
                    ofs.push_back(tar.append(e.name, std::string(e.data.begin(), e.data.end())));
                else
                    ofs.push_back(tar.append(e.name, e.data));
                exp.push_back(e);
            }
            tar.end();
            out.close();
        }
        auto buf = bytes_of(mc::slurp(dir + "/f.tar"));
        auto p   = with_posix(buf);
        auto l   = with_libarchive(buf);
        if (p.size() != exp.size() || l.size() != exp.size())
            throw mc::Fail("tar-count", mc::cat(exp.size(), " files, read as ", p.size(), " and, with libarchive, ", l.size()));
        for (unsigned i = 0; i < exp.size(); ++i)
        {
            c.transitions();
            if (p[i].first.name != exp[i].name || l[i].name != exp[i].name || !p[i].first.file || !l[i].file)
                throw mc::Fail("tar-name", mc::cat(exp[i].name, " read as ", p[i].first.name, " and ", l[i].name));
            same(p[i].first.data, exp[i].data, "tar-data", exp[i].name);
            same(l[i].data, exp[i].data, "tar-data-libarchive", exp[i].name);
            if ((off_t)p[i].second != ofs[i])
                throw mc::Fail("tar-offset", mc::cat(exp[i].name, " is at ", p[i].second, " and not at ", ofs[i]));
        }
    }
}

// Extended headers: values of all the lengths
void pax_task(Ctx& c, const std::string& task)
{
    auto f = mc::split(task, '|');
    auto dir = mc::fresh_scratch();
    bool vec = f[1] == "v";
    auto ranges = std::vector<std::pair<size_t, size_t>>{{0, 120}, {980, 1010}, {9980, 10005}};
    for (auto& r : ranges)
        for (size_t size = r.first; size < r.second; ++size)
        {
            c.current(std::to_string(size));
            c.eval();
            c.distinct(mc::cat(task, size));
            Bytes v = element('z', 1, size);
            PaxHeader pax;
            if (vec)
                pax.append("ARKI.test", v);
            else
                pax.append("ARKI.test", std::string(v.begin(), v.end()));
            pax.append("comment", std::string("hello"));
            // Read the header
            std::string h(pax.data.begin(), pax.data.end());
            std::vector<std::string> got;
            size_t pos = 0;
            while (pos < h.size())
            {
                size_t len = std::stoul(h.substr(pos));
                if (!len || pos + len > h.size() || h[pos + len - 1] != '\n')
                    throw mc::Fail("pax-length", mc::cat("the record at ", pos, " of ", h.size(), " says it is long ", len));
                auto rec = h.substr(pos, len - 1);
                got.push_back(rec.substr(rec.find(' ') + 1));
                pos += len;
            }
            auto exp = "ARKI.test=" + std::string(v.begin(), v.end());
            if (got.size() != 2 || got[0] != exp || got[1] != "comment=hello")
                throw mc::Fail("pax", mc::cat("read as ", got.size(), " records: ", mc::quote(mc::join(got, "/").substr(0, 100))));
            // In a file
            core::File out(dir + "/f.tar", O_WRONLY | O_CREAT | O_TRUNC, 0666);
            TarOutput tar(out);
            tar.append(pax);
            tar.append("000001.grib", element('r', 1, size));
            tar.end();
            out.close();
            auto buf = bytes_of(mc::slurp(dir + "/f.tar"));
            auto p   = with_posix(buf);
            if (p.size() != 2 || p[0].first.file || !p[1].first.file)
                throw mc::Fail("pax-file", "unexpected entries");
            same(p[0].first.data, pax.data, "pax-file", "the extended header");
            auto l = with_libarchive(buf);
            if (l.size() != 1)
                throw mc::Fail("pax-libarchive", mc::cat("libarchive reads ", l.size(), " files"));
            same(l[0].data, element('r', 1, size), "pax-libarchive", "data");
        }
}

std::shared_ptr<Metadata> make_md(unsigned i, DataFormat format, Bytes data)
{
    auto md = std::make_shared<Metadata>();
    md->set_source_inline(format, metadata::DataManager::get().to_data(format, std::move(data)));
    md->set(types::Reftime::createPosition(core::Time(2007 + i % 3, 7, 8, 13, 0, i)));
    md->set(types::Origin::createGRIB1(200, 0, 10 + i));
    if (i % 2)
        md->set(types::Product::createGRIB1(200, 140, 229));
    return md;
}

/*
 * zip
 */

const std::vector<size_t> zip_sizes{1, 100, 5000};

// wN,S write, dN delete, mA,B rename, c close and open again
void zip_task(Ctx& c, const std::string& task)
{
    auto f = mc::split(task, '|');
    std::vector<std::string> alphabet;
    for (unsigned n : {1, 2, 10})
        for (unsigned s : {0, 2})
            alphabet.push_back(mc::cat("w", n, ",", s));
    for (unsigned n : {1, 2})
        alphabet.push_back(mc::cat("d", n));
    alphabet.push_back("m1,3");
    alphabet.push_back("m2,1");
    alphabet.push_back("c");
    std::vector<std::string> seqs;
    sequences(alphabet.size(), std::stoul(f[2]), f[1], seqs);
    auto dir = mc::fresh_scratch();
    for (auto& s : seqs)
    {
        c.current(s);
        c.eval();
        auto fname = dir + "/f.zip";
        sys::unlink_ifexists(fname);
        std::map<size_t, Bytes> m, kept;
        // Existing files can be changed
        m[5] = kept[5] = element('r', 5, 10);
        {
            auto file = std::make_shared<core::File>(fname, O_WRONLY | O_CREAT | O_TRUNC, 0666);
            auto out  = metadata::ArchiveOutput::create_file("zip", file);
            out->set_subdir("");
            for (unsigned i = 0; i < 4; ++i)
                out->append(*make_md(i, DataFormat::GRIB, m[5]));
            out->append(*make_md(5, DataFormat::GRIB, m[5]));
            out->flush(false);
            out.reset();
            file->close();
            ZipWriter w(DataFormat::GRIB, fname);
            for (unsigned i = 1; i < 5; ++i)
                w.remove(segment::Span(i, 10));
            w.close();
        }
        // Buffers need to live until close
        std::vector<std::shared_ptr<Bytes>> bufs;
        auto w         = std::make_unique<ZipWriter>(DataFormat::GRIB, fname);
        unsigned count = 0;
        std::string ops;
        auto attempt = [&](std::function<void()> op) {
            try
            {
                op();
                return true;
            }
            catch (std::runtime_error&)
            {
                return false;
            }
        };
        for (auto i : indices(s))
        {
            auto o = alphabet[i];
            ops += o + " ";
            c.transitions();
            switch (o[0])
            {
                case 'w': {
                    auto a = indices(o.substr(1));
                    bufs.push_back(std::make_shared<Bytes>(element(count % 2 ? 'r' : 'z', ++count, zip_sizes[a[1]])));
                    w->write(segment::Span(a[0], bufs.back()->size()), *bufs.back());
                    m[a[0]] = *bufs.back();
                    break;
                }
                case 'd': {
                    size_t n = std::stoul(o.substr(1));
                    auto it  = m.find(n);
                    bool ok  = attempt([&] { w->remove(segment::Span(n, it == m.end() ? 1 : it->second.size())); });
                    if (ok != (it != m.end()))
                        throw mc::Fail("zip-delete", mc::cat(ops, ": deleting ", ok ? "succeeds" : "fails"));
                    if (ok)
                        m.erase(n);
                    break;
                }
                case 'm': {
                    auto a  = indices(o.substr(1));
                    auto it = m.find(a[0]);
                    // Renaming onto another is refused
                    bool exp = it != m.end() && !m.count(a[1]);
                    bool ok  = attempt([&] { w->rename(segment::Span(a[0], 0), segment::Span(a[1], 0)); });
                    if (ok != exp)
                        throw mc::Fail("zip-rename", mc::cat(ops, ": renaming ", ok ? "succeeds" : "fails"));
                    if (ok)
                    {
                        m[a[1]] = it->second;
                        m.erase(a[0]);
                    }
                    break;
                }
                case 'c':
                    w->close();
                    kept = m;
                    bufs.clear();
                    w = std::make_unique<ZipWriter>(DataFormat::GRIB, fname);
                    break;
            }
        }
        for (bool closed : {false, true})
        {
            // Without closing it, changes are lost
            if (closed)
            {
                w->close();
                kept = m;
            }
            bool exists = std::filesystem::exists(fname);
            if (exists != !kept.empty())
                throw mc::Fail("zip-exists", mc::cat(ops, ": with ", kept.size(), " elements the file ", exists ? "exists" : "does not exist"));
            c.distinct(mc::cat(ops, closed));
            if (!exists)
                continue;
            core::File in(fname, O_RDONLY);
            ZipReader r(DataFormat::GRIB, std::move(in));
            auto spans = r.list_data();
            std::sort(spans.begin(), spans.end());
            if (spans.size() != kept.size())
                throw mc::Fail("zip-list", mc::cat(ops, ": ", spans.size(), " elements instead of ", kept.size()));
            auto l = with_libarchive(bytes_of(mc::slurp(fname)));
            if (l.size() != kept.size())
                throw mc::Fail("zip-libarchive", mc::cat(ops, ": libarchive finds ", l.size(), " files instead of ", kept.size()));
            unsigned n = 0;
            for (auto& k : kept)
            {
                if (spans[n].offset != k.first || spans[n].size != k.second.size())
                    throw mc::Fail("zip-list", mc::cat(ops, ": element ", spans[n].offset, " of ", spans[n].size, " instead of ", k.first, " of ", k.second.size()));
                ++n;
                same(r.get(segment::Span(k.first, k.second.size())), k.second, "zip-get", mc::cat(ops, ": element ", k.first));
                if (attempt([&] { r.get(segment::Span(k.first, k.second.size() + 1)); }))
                    throw mc::Fail("zip-get-size", "reading with another size is possible");
                char name[32];
                snprintf(name, sizeof(name), "%06zu.grib", k.first);
                bool found = false;
                for (auto& e : l)
                    if (e.name == name)
                    {
                        found = true;
                        same(e.data, k.second, "zip-libarchive", mc::cat(ops, ": ", name));
                    }
                if (!found)
                    throw mc::Fail("zip-libarchive", mc::cat(ops, ": libarchive does not find ", name));
            }
            if (attempt([&] { r.get(segment::Span(99, 1)); }))
                throw mc::Fail("zip-get-missing", "reading a missing element is possible");
        }
    }
}

/*
 * Archives given to users, and segments
 */

const std::vector<size_t> arc_sizes{1, 511, 512, 1024, 12000};
const std::vector<DataFormat> arc_formats{DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2};

std::string describe(const Metadata& md)
{
    auto c = md.clone();
    c->unset_source();
    return c->to_yaml();
}

void arc_task(Ctx& c, const std::string& task)
{
    // arc|format|subdir|how|with metadata|first|length
    auto f = mc::split(task, '|');
    std::vector<std::string> seqs;
    sequences(arc_sizes.size() * arc_formats.size(), std::stoul(f[6]), f[5], seqs);
    bool with_md = f[4] == "m";
    auto dir     = mc::fresh_scratch();
    for (auto& s : seqs)
    {
        c.current(s);
        c.eval();
        c.distinct(task + s);
        Bytes buf;
        std::vector<std::shared_ptr<Metadata>> mds;
        std::vector<Bytes> data;
        std::vector<std::string> names;
        {
            std::shared_ptr<core::File> file;
            std::unique_ptr<metadata::ArchiveOutput> out;
            if (f[3] == "file")
            {
                file = std::make_shared<core::File>(dir + "/out", O_WRONLY | O_CREAT | O_TRUNC, 0666);
                out  = metadata::ArchiveOutput::create_file(f[1], file);
            }
            else
                out = metadata::ArchiveOutput::create_stream(f[1], std::shared_ptr<StreamOutput>(StreamOutput::create(buf)));
            if (f[2] != "default")
                out->set_subdir(f[2] == "none" ? "" : f[2]);
            std::string sub = f[2] == "default" ? "data/" : f[2] == "none" ? "" : f[2] + "/";
            for (auto i : indices(s))
            {
                auto fmt = arc_formats[i / arc_sizes.size()];
                data.push_back(element(data.size() % 2 ? 'r' : 'z', mds.size(), arc_sizes[i % arc_sizes.size()]));
                mds.push_back(make_md(mds.size(), fmt, data.back()));
                // Queries give data in files, already read
                if (f[0] == "arc")
                {
                    mds.back()->set_source(types::Source::createBlobUnlocked(fmt, "/dataset", "2007/07.file", 100, data.back().size()));
                    mds.back()->set_cached_data(metadata::DataManager::get().to_data(fmt, Bytes(data.back())));
                }
                char name[32];
                snprintf(name, sizeof(name), "%06zu.", mds.size());
                names.push_back(sub + name + format_name(fmt));
                auto before = mds.back()->to_yaml();
                auto n      = out->append(*mds.back());
                c.transitions();
                if (n != mds.size())
                    throw mc::Fail("arc-number", mc::cat("element ", mds.size(), " gets number ", n));
                if (before != mds.back()->to_yaml())
                    throw mc::Fail("arc-changed", "appending changes the metadata");
            }
            if (with_md)
                names.push_back(sub + "metadata.md");
            out->flush(with_md);
            out.reset();
            if (file)
            {
                file->close();
                buf = bytes_of(mc::slurp(dir + "/out"));
            }
        }
        if (f[1] == "tar")
        {
            // Blocks after the end of the archive make a whole record in files
            auto p = with_posix(buf);
            if (p.size() != names.size())
                throw mc::Fail("arc-posix", mc::cat(p.size(), " entries instead of ", names.size()));
        }
        auto l = with_libarchive(buf);
        if (l.size() != names.size())
            throw mc::Fail("arc-count", mc::cat(l.size(), " entries instead of ", names.size()));
        for (unsigned i = 0; i < names.size(); ++i)
        {
            if (l[i].name != names[i] || !l[i].file)
                throw mc::Fail("arc-name", mc::cat("entry ", i, " is ", l[i].name, " and not ", names[i]));
            if (i < data.size())
                same(l[i].data, data[i], "arc-data", names[i]);
        }
        if (with_md)
        {
            // It describes the same elements, in the same order
            metadata::Collection mdc;
            mc::spew(dir + "/metadata.md", std::string(l.back().data.begin(), l.back().data.end()));
            try
            {
                mdc.read_from_file(dir + "/metadata.md");
            }
            catch (std::exception& e)
            {
                throw mc::Fail(f[0] == "arc" ? "arc-metadata-unreadable" : "arc-metadata-inline", e.what());
            }
            if (mdc.size() != mds.size())
                throw mc::Fail("arc-metadata", mc::cat(mdc.size(), " metadata instead of ", mds.size()));
            for (unsigned i = 0; i < mds.size(); ++i)
                if (describe(mdc[i]) != describe(*mds[i]))
                    throw mc::Fail("arc-metadata", mc::cat("metadata ", i, " is ", mc::quote(describe(mdc[i])), " and not ", mc::quote(describe(*mds[i]))));
        }
    }
}

// Segments created in all the forms: all data are there where metadata says,
// for arkimet and for other programs, and checks find nothing to do
void seg_task(Ctx& c, const std::string& task)
{
    // seg|kind|format|group|first|length
    auto f            = mc::split(task, '|');
    DataFormat format = format_from_string(f[2]);
    std::vector<std::string> seqs;
    // GRIB, VM2 elements have no fixed size: validators are not used here
    sequences(arc_sizes.size(), std::stoul(f[5]), f[4], seqs);
    segment::RepackConfig cfg;
    cfg.gz_group_size = std::stoul(f[3]);
    for (auto& s : seqs)
    {
        if (s.empty())
            continue;
        c.current(s);
        c.eval();
        c.distinct(task + s);
        auto dir     = mc::fresh_scratch();
        auto session = std::make_shared<segment::scan::Session>(dir);
        auto segment = session->segment_from_relpath_and_format("2007/07." + f[2], format);
        std::filesystem::create_directories(dir + "/2007");
        metadata::Collection mds;
        std::vector<Bytes> data;
        for (auto i : indices(s))
        {
            auto e = element('r', data.size(), arc_sizes[i]);
            if (format == DataFormat::VM2)
                for (auto& ch : e)
                    ch = 'a' + ch % 26;
            data.push_back(e);
            mds.acquire(make_md(data.size(), format, e));
        }
        std::shared_ptr<const segment::Data> d;
        std::string file = dir + "/2007/07." + f[2];
        if (f[1] == "tar")
            d = segment::data::tar::Data::create(*segment, mds, cfg), file += ".tar";
        else if (f[1] == "zip")
            d = segment::data::zip::Data::create(*segment, mds, cfg), file += ".zip";
        else if (f[1] == "gzconcat")
            d = segment::data::gzconcat::Data::create(*segment, mds, cfg), file += ".gz";
        else if (f[1] == "gzlines")
            d = segment::data::gzlines::Data::create(*segment, mds, cfg), file += ".gz";
        else if (f[1] == "concat")
            d = segment::data::concat::Data::create(*segment, mds, cfg);
        else if (f[1] == "lines")
            d = segment::data::lines::Data::create(*segment, mds, cfg);
        else if (f[1] == "dir")
            d = segment::data::dir::Data::create(*segment, mds, cfg);
        if (!d->exists_on_disk())
            throw mc::Fail("seg-exists", "it is not found on disk");
        if (d->is_empty())
            throw mc::Fail("seg-empty", "it is said to be empty");
        auto found = segment::Data::create(session->segment_from_relpath("2007/07." + f[2]));
        if (found->type() != std::string(f[1]))
            throw mc::Fail("seg-detect", mc::cat("it is found as ", found->type()));
        // Where metadata says, for others too
        Bytes raw;
        std::vector<size_t> ofs;
        std::vector<std::pair<std::string, Bytes>> files;
        if (f[1] != "dir")
            raw = bytes_of(mc::slurp(file));
        if (f[1] == "gzconcat" || f[1] == "gzlines")
        {
            std::vector<size_t> members;
            raw = inflate_all(raw, members);
        }
        if (f[1] == "tar" || f[1] == "zip")
        {
            auto l = with_libarchive(raw);
            if (l.size() != data.size())
                throw mc::Fail("seg-count", mc::cat(l.size(), " files instead of ", data.size()));
            for (unsigned i = 0; i < data.size(); ++i)
            {
                char name[32];
                snprintf(name, sizeof(name), "%06zu.%s", (size_t)(f[1] == "zip" ? mds[i].sourceBlob().offset : i), f[2].c_str());
                if (l[i].name != name)
                    throw mc::Fail("seg-name", mc::cat("file ", i, " is ", l[i].name, " and not ", name));
                same(l[i].data, data[i], "seg-data", name);
            }
        }
        auto lock   = std::make_shared<core::lock::NullReadLock>();
        auto reader = found->reader(lock);
        for (unsigned k = 0; k < data.size() * 2; ++k)
        {
            // Forward, and then backward
            unsigned i = k < data.size() ? k : data.size() * 2 - 1 - k;
            c.transitions();
            auto& b = mds[i].sourceBlob();
            if (b.size != data[i].size() || b.format != format || b.filename != segment->relpath())
                throw mc::Fail("seg-source", mc::cat("element ", i, ": ", b.size, " in ", b.filename));
            if (f[1] != "zip" && f[1] != "dir")
                same(cut(raw, b.offset, b.size), data[i], "seg-offset", mc::cat("element ", i, " at ", b.offset));
            if (f[1] == "dir")
            {
                char name[32];
                snprintf(name, sizeof(name), "/%06zu.%s", (size_t)b.offset, f[2].c_str());
                auto v = bytes_of(mc::slurp(file + name));
                if (format == DataFormat::VM2 && !v.empty() && v.back() == '\n')
                    v.pop_back();
                same(v, data[i], "seg-dir", name);
            }
            same(reader->read(b), data[i], "seg-read", mc::cat("element ", i));
            Bytes sent;
            {
                auto out = StreamOutput::create(sent);
                reader->stream(b, *out);
            }
            auto exp = data[i];
            if (format == DataFormat::VM2)
                exp.push_back('\n');
            same(sent, exp, "seg-stream", mc::cat("element ", i));
        }
        // Checks, quick because data are not valid, find nothing to do
        std::string report;
        auto state = found->checker()->check([&](const std::string& m) { report += m + "; "; }, mds, true);
        if (!state.is_ok())
            throw mc::Fail("seg-check", mc::cat("a check says ", state.to_string(), ": ", report));
    }
}

mc::Register c22("C22", [] {
    arki::init();
    std::vector<std::string> tasks;
    // A first element for each task
    for (char p : {'z', 'r'})
        for (unsigned g = 0; g < 4; ++g)
            for (unsigned i = 0; i < gz_sizes.size(); ++i)
                tasks.push_back(mc::cat("gz|", p, "|", g, "|", i, "|", args.thorough ? 3 : 2));
    run_tasks(tasks, gz_task, "gz|");
    tasks.clear();
    for (char p : {'z', 'r'})
        for (unsigned g = 0; g < 3; ++g)
            for (auto s : {"2,2", "2,1,2", "2,2,2,2"})
                tasks.push_back(mc::cat("gzd|", p, "|", g, "|", s));
    run_tasks(tasks, gz_damage_task, "gzd|");
    tasks.clear();
    for (char p : {'z', 'r'})
    {
        for (size_t i = 0; i < 2000; i += 100)
            tasks.push_back(mc::cat("lzo|", p, "|", i, "|", i + 99));
        for (size_t i : {4090, 49150, 65530})
            tasks.push_back(mc::cat("lzo|", p, "|", i, "|", i + 12));
    }
    run_tasks(tasks, lzo_task, "lzo|");
    tasks.clear();
    for (auto k : {"v", "s"})
    {
        tasks.push_back(mc::cat("tar|", k, "||0"));
        for (unsigned i = 0; i < tar_sizes.size(); ++i)
            tasks.push_back(mc::cat("tar|", k, "|", i, "|", args.thorough ? 3 : 2));
    }
    run_tasks(tasks, tar_task, "tar|");
    run_tasks({"pax|v", "pax|s"}, pax_task, "pax|");
    tasks.clear();
    tasks.push_back("zip||0");
    for (unsigned i = 0; i < 11; ++i)
        tasks.push_back(mc::cat("zip|", i, "|", args.thorough ? 4 : 3));
    run_tasks(tasks, zip_task, "zip|");
    tasks.clear();
    for (auto fmt : {"tar", "tar.gz", "tar.xz", "zip"})
        for (auto how : {"file", "stream"})
            for (auto m : {"m", "n"})
                for (auto sub : {"default", "none", "a/b"})
                {
                    bool xz = std::string(fmt) == "tar.xz";
                    tasks.push_back(mc::cat("arc|", fmt, "|", sub, "|", how, "|", m, "||0"));
                    for (unsigned i = 0; i < arc_sizes.size() * arc_formats.size(); ++i)
                        tasks.push_back(mc::cat("arc|", fmt, "|", sub, "|", how, "|", m, "|", i, "|", args.thorough ? 2 : sub == std::string("default") && !xz ? 1 : 0));
                }
    run_tasks(tasks, arc_task, "arc|");
    run_tasks({"arci|tar|default|file|m|2|1"}, arc_task, "arci|");
    tasks.clear();
    for (auto k : {"tar", "zip", "gzconcat", "concat", "dir"})
        for (auto fmt : {"grib", "bufr"})
            for (unsigned g : {0, 1, 2})
            {
                if (g && k != std::string("gzconcat"))
                    continue;
                for (unsigned i = 0; i < arc_sizes.size(); ++i)
                    tasks.push_back(mc::cat("seg|", k, "|", fmt, "|", g, "|", i, "|", args.thorough ? 4 : 3));
            }
    for (auto k : {"tar", "zip", "gzlines", "lines"})
        for (unsigned g : {0, 1, 2})
        {
            if (g && k != std::string("gzlines"))
                continue;
            for (unsigned i = 0; i < arc_sizes.size(); ++i)
                tasks.push_back(mc::cat("seg|", k, "|vm2|", g, "|", i, "|", args.thorough ? 4 : 3));
        }
    run_tasks(tasks, seg_task, "seg|");
});

} // namespace
