// Stand-ins for the parts of arkimet that need libraries missing from this
// sandbox (DB-All.e for BUFR, meteo-vm2 for VM2), and message scanners for the
// harness data.
#include "mcdata.h"
#include <arki/core/file.h>
#include <arki/data.h>
#include <arki/data/bufr.h>
#include <arki/data/vm2.h>
#include <arki/metadata.h>
#include <arki/runtime.h>
#include <arki/metadata/data.h>
#include <arki/types/area.h>
#include <arki/types/product.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/value.h>
#include <arki/utils/sys.h>
#include <arki/utils/sys.h>
#include <fcntl.h>
#include <sstream>

using namespace arki;

namespace mc {

static const char HDF[] = "\x89HDF\r\n\x1a\n";

static std::string vm2_time(const std::string& t)
{
    // 2020-01-01T00:00:00Z -> 20200101000000
    std::string r;
    for (char c : t)
        if (isdigit((unsigned char)c))
            r += c;
    return r;
}

std::string Msg::bytes() const
{
    std::stringstream s;
    switch (format)
    {
        case DataFormat::VM2:
            s << vm2_time(t) << "," << a << "," << p << "," << (fill.empty() ? "0" : fill) << ",,,"
              << "000000000";
            return s.str();
        case DataFormat::GRIB: s << "GRIB|"; break;
        case DataFormat::BUFR: s << "BUFR|"; break;
        default:               s << std::string(HDF, 8) << "|"; break;
    }
    s << "t=" << t << "|p=" << p << "|a=" << a << "|l=" << l;
    if (format == DataFormat::BUFR)
        s << "|u=" << u;
    s << "|f=" << fill << "|7777";
    return s.str();
}

std::string Msg::id() const { return format_name(format) + ":" + bytes(); }

static bool take(const std::string& buf, size_t& pos, const char* key, std::string& val)
{
    size_t kl = strlen(key);
    if (buf.compare(pos, kl, key) != 0)
        return false;
    size_t e = buf.find('|', pos + kl);
    if (e == std::string::npos)
        return false;
    val = buf.substr(pos + kl, e - pos - kl);
    pos = e + 1;
    return true;
}

bool Msg::parse(DataFormat format, const std::string& buf, Msg& out)
{
    out.format = format;
    std::string v;
    if (format == DataFormat::VM2)
    {
        size_t c1 = buf.find(','), c2 = c1 == std::string::npos ? c1 : buf.find(',', c1 + 1),
               c3 = c2 == std::string::npos ? c2 : buf.find(',', c2 + 1);
        if (c3 == std::string::npos || c1 != 14)
            return false;
        for (size_t i = 0; i < c3; ++i)
            if (!isdigit((unsigned char)buf[i]) && buf[i] != ',')
                return false;
        std::string d = buf.substr(0, 14);
        out.t = d.substr(0, 4) + "-" + d.substr(4, 2) + "-" + d.substr(6, 2) + "T" + d.substr(8, 2) +
                ":" + d.substr(10, 2) + ":" + d.substr(12, 2) + "Z";
        out.a    = std::stoul(buf.substr(c1 + 1));
        out.p    = std::stoul(buf.substr(c2 + 1));
        std::string rest = buf.substr(c3 + 1);
        size_t e = rest.find(",,,000000000");
        if (e == std::string::npos || e + 12 != rest.size())
            return false;
        out.fill = rest.substr(0, e);
        return true;
    }
    size_t pos = 0;
    std::string magic;
    switch (format)
    {
        case DataFormat::GRIB: magic = "GRIB|"; break;
        case DataFormat::BUFR: magic = "BUFR|"; break;
        default:               magic = std::string(HDF, 8) + "|"; break;
    }
    if (buf.compare(0, magic.size(), magic) != 0)
        return false;
    pos = magic.size();
    if (!take(buf, pos, "t=", out.t)) return false;
    if (!take(buf, pos, "p=", v)) return false;
    out.p = std::stoul(v);
    if (!take(buf, pos, "a=", v)) return false;
    out.a = std::stoul(v);
    if (!take(buf, pos, "l=", v)) return false;
    out.l = std::stoul(v);
    if (format == DataFormat::BUFR)
    {
        if (!take(buf, pos, "u=", v)) return false;
        out.u = std::stoi(v);
    }
    if (!take(buf, pos, "f=", out.fill)) return false;
    return buf.substr(pos) == "7777";
}

std::shared_ptr<Metadata> Msg::meta() const
{
    auto md = std::make_shared<Metadata>();
    md->set(types::Reftime::createPosition(core::Time::create_iso8601(t)));
    if (format == DataFormat::VM2)
    {
        md->set<types::area::VM2>(a);
        md->set(types::Product::createVM2(p));
        std::string b = bytes();
        size_t pos    = b.find(',');
        pos           = b.find(',', pos + 1);
        pos           = b.find(',', pos + 1);
        md->set(types::Value::create(b.substr(pos + 1)));
    }
    else
    {
        md->test_set("origin", "GRIB1(200, 0, " + std::to_string(100 + a) + ")");
        md->test_set("product", "GRIB1(200, 140, " + std::to_string(p) + ")");
        if (l)
            md->test_set("level", "GRIB1(" + std::to_string(100) + ", " + std::to_string(l) + ")");
        md->test_set("timerange", "GRIB1(0, " + std::to_string(p - 1) + "h)");
        if (p % 2 == 0)
        {
            md->test_set("run", "MINUTE(06:00)");
            md->test_set("task", "task" + std::to_string(p));
        }
        if (p > 2)
        {
            md->test_set("proddef", "GRIB(tod=" + std::to_string(p) + ")");
            md->test_set("quantity", "ACRR, TH");
        }
        md->test_set("area", "GRIB(lat=" + std::to_string(a) + ", type=0)");
    }
    return md;
}

std::shared_ptr<Metadata> Msg::inlined() const
{
    auto md = meta();
    auto b  = bytes();
    md->set_source_inline(format, metadata::DataManager::get().to_data(
                                      format, std::vector<uint8_t>(b.begin(), b.end())));
    return md;
}

std::shared_ptr<Metadata> make_inline(DataFormat format, const std::string& bytes)
{
    Msg m;
    if (!Msg::parse(format, bytes, m))
        throw std::runtime_error("mc: cannot parse message");
    return m.inlined();
}

static std::string slurp(const std::filesystem::path& p)
{
    utils::sys::File in(p, O_RDONLY);
    std::string res, buf(65536, 0);
    while (size_t n = in.read(buf.data(), buf.size()))
        res.append(buf, 0, n);
    return res;
}

/// Split a buffer in messages, calling f(offset, bytes)
template <typename F> static bool split(DataFormat format, const std::string& buf, F f)
{
    if (format == DataFormat::VM2)
    {
        size_t pos = 0;
        while (pos < buf.size())
        {
            size_t e = buf.find('\n', pos);
            if (e == std::string::npos)
                e = buf.size();
            std::string line = buf.substr(pos, e - pos);
            Msg m;
            if (Msg::parse(format, line, m))
                if (!f(pos, line))
                    return false;
            pos = e + 1;
        }
        return true;
    }
    std::string magic = format == DataFormat::GRIB ? "GRIB|" : format == DataFormat::BUFR ? "BUFR|" : std::string(HDF, 8) + "|";
    size_t pos = 0;
    while ((pos = buf.find(magic, pos)) != std::string::npos)
    {
        size_t e = buf.find("|7777", pos);
        if (e == std::string::npos)
            throw std::runtime_error("mc: truncated message found while scanning");
        std::string m = buf.substr(pos, e + 5 - pos);
        if (!f(pos, m))
            return false;
        pos = e + 5;
    }
    return true;
}

struct Scanner : public data::Scanner
{
    DataFormat m_format;
    explicit Scanner(DataFormat f) : m_format(f) {}
    DataFormat name() const override { return m_format; }

    std::shared_ptr<Metadata> scan_data(const std::vector<uint8_t>& data) override
    {
        return make_inline(m_format, std::string(data.begin(), data.end()));
    }

    bool scan_file_multi(const std::filesystem::path& abspath, data::scan_file_multi_dest_func dest) override
    {
        return split(m_format, slurp(abspath), [&](size_t off, const std::string& b) {
            Msg m;
            if (!Msg::parse(m_format, b, m))
                throw std::runtime_error("mc: malformed message found while scanning");
            return dest(m.meta(), off, std::vector<uint8_t>(b.begin(), b.end()));
        });
    }

    std::shared_ptr<Metadata> scan_file_single(const std::filesystem::path& abspath) override
    {
        auto b = slurp(abspath);
        if (m_format == DataFormat::VM2 && !b.empty() && b.back() == '\n')
            b.pop_back();
        Msg m;
        if (!Msg::parse(m_format, b, m))
            throw std::runtime_error(abspath.native() + ": mc: malformed message");
        auto md = m.meta();
        md->add_note_scanned_from(abspath);
        // As the real VM2 scanner does
        if (m_format == DataFormat::VM2)
            md->set_cached_data(metadata::DataManager::get().to_data(m_format, std::vector<uint8_t>(b.begin(), b.end())));
        return md;
    }

    bool scan_pipe(core::NamedFileDescriptor& in, metadata_dest_func dest) override
    {
        std::string buf;
        char b[4096];
        while (size_t n = in.read(b, sizeof(b)))
            buf.append(b, n);
        return split(m_format, buf, [&](size_t, const std::string& b) { return dest(make_inline(m_format, b)); });
    }

    bool usn(const std::string& b, int& usn) const
    {
        if (m_format != DataFormat::BUFR)
            return false;
        Msg m;
        if (!Msg::parse(m_format, b, m))
            throw std::runtime_error("mc: malformed BUFR");
        if (m.u < 0)
            return false;
        usn = m.u;
        return true;
    }
    bool update_sequence_number(Metadata& md, int& u) const override
    {
        auto b = md.get_data().read();
        return usn(std::string(b.begin(), b.end()), u);
    }
    bool update_sequence_number(const types::source::Blob& source, int& u) const override
    {
        if (source.format != DataFormat::BUFR)
            return false;
        auto b = source.read_data();
        return usn(std::string(b.begin(), b.end()), u);
    }
    std::vector<uint8_t> reconstruct(const Metadata& md, const std::string& value) const override
    {
        if (m_format != DataFormat::VM2)
            return data::Scanner::reconstruct(md, value);
        const auto* rt = md.get<types::reftime::Position>();
        auto t         = rt->get_Position();
        const types::area::VM2* area = dynamic_cast<const types::area::VM2*>(md.get<types::Area>());
        unsigned vi;
        md.get<types::Product>()->get_VM2(vi);
        char b[32];
        snprintf(b, 32, "%04d%02d%02d%02d%02d%02d", t.ye, t.mo, t.da, t.ho, t.mi, t.se);
        std::stringstream r;
        r << b << "," << area->get_VM2() << "," << vi << "," << value;
        auto s = r.str();
        return std::vector<uint8_t>(s.begin(), s.end());
    }
};

void install_scanners()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    arki::init();
    data::Scanner::register_init([] {
        for (auto f : {DataFormat::GRIB, DataFormat::BUFR, DataFormat::VM2, DataFormat::ODIMH5,
                       DataFormat::NETCDF, DataFormat::JPEG})
            data::Scanner::register_scanner(f, std::make_shared<Scanner>(f));
    });
}

} // namespace mc

namespace arki::data::bufr {

struct McValidator : public Validator
{
    DataFormat format() const override { return DataFormat::BUFR; }
    void validate_file(utils::sys::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        if (size < 8)
            throw_check_error(fd, offset, "file segment to check is only " + std::to_string(size) + " bytes (minimum for a BUFR is 8)");
        char buf[4];
        if (fd.pread(buf, 4, offset) != 4 || memcmp(buf, "BUFR", 4) != 0)
            throw_check_error(fd, offset, "data does not start with 'BUFR'");
        if (fd.pread(buf, 4, offset + size - 4) != 4 || memcmp(buf, "7777", 4) != 0)
            throw_check_error(fd, offset, "data does not end with '7777'");
    }
    void validate_buf(const void* buf, size_t size) const override
    {
        if (size < 8)
            throw_check_error("buffer is shorter than 8 bytes");
        if (memcmp(buf, "BUFR", 4) != 0)
            throw_check_error("buffer does not start with 'BUFR'");
        if (memcmp((const char*)buf + size - 4, "7777", 4) != 0)
            throw_check_error("buffer does not end with '7777'");
    }
};

const Validator& validator()
{
    static McValidator v;
    return v;
}

Scanner::Scanner() {}
Scanner::~Scanner() {}
std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("stub"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func) { throw std::runtime_error("stub"); }
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { throw std::runtime_error("stub"); }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("stub"); }
int Scanner::update_sequence_number_raw(const std::string&) const { return 0; }
bool Scanner::update_sequence_number(Metadata&, int&) const { return false; }
bool Scanner::update_sequence_number(const types::source::Blob&, int&) const { return false; }
void MockScanner::scan_extra(dballe::BinaryMessage&, std::shared_ptr<dballe::Message>, std::shared_ptr<Metadata>) {}

} // namespace arki::data::bufr

namespace arki::data::vm2 {

struct McValidator : public Validator
{
    DataFormat format() const override { return DataFormat::VM2; }
    void validate_str(const std::string& s, utils::sys::NamedFileDescriptor* fd, off_t offset) const
    {
        mc::Msg m;
        std::string v = s;
        if (!v.empty() && v.back() == '\n')
            v.pop_back();
        if (!mc::Msg::parse(DataFormat::VM2, v, m))
        {
            if (fd)
                throw_check_error(*fd, offset, "not a valid VM2 line: '" + s + "'");
            else
                throw_check_error("not a valid VM2 line: '" + s + "'");
        }
    }
    void validate_file(utils::sys::NamedFileDescriptor& fd, off_t offset, size_t size) const override
    {
        if (size >= 1024)
            throw_check_error(fd, offset, "file segment to check is too long");
        std::string s(size, 0);
        auto n = fd.pread(s.data(), size, offset);
        if (n != size)
            throw_check_error(fd, offset, "read less than the expected bytes");
        validate_str(s, &fd, offset);
    }
    void validate_buf(const void* buf, size_t size) const override
    {
        std::string s((const char*)buf, size);
        if (s.empty())
            throw_check_error("buffer is empty");
        validate_str(s, nullptr, 0);
    }
};

const Validator& validator()
{
    static McValidator v;
    return v;
}

std::shared_ptr<Metadata> Scanner::scan_data(const std::vector<uint8_t>&) { throw std::runtime_error("stub"); }
bool Scanner::scan_file_multi(const std::filesystem::path&, scan_file_multi_dest_func) { throw std::runtime_error("stub"); }
std::shared_ptr<Metadata> Scanner::scan_file_single(const std::filesystem::path&) { throw std::runtime_error("stub"); }
bool Scanner::scan_pipe(core::NamedFileDescriptor&, metadata_dest_func) { throw std::runtime_error("stub"); }
void Scanner::normalize_before_dispatch(Metadata&) {}
std::vector<uint8_t> Scanner::reconstruct(const Metadata&, const std::string&) const { throw std::runtime_error("stub"); }

} // namespace arki::data::vm2
