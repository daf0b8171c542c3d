// Damaged input: all the truncations, single byte changes, deletions and
// insertions of encoded data and of text, with guard pages after each buffer
#include "mc.h"
#include "typegrid.h"
#include <arki/core/cfg.h>
#include <arki/core/file.h>
#include <arki/core/fuzzytime.h>
#include <arki/core/time.h>
#include <arki/data.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/matcher/utils.h>
#include <arki/metadata.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/sort.h>
#include <arki/metadata/stream.h>
#include <arki/runtime.h>
#include <arki/stream.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/summary.h>
#include <arki/summary/stats.h>
#include <arki/types/bundle.h>
#include <arki/types/note.h>
#include <arki/types/source/blob.h>
#include <arki/utils/compress.h>
#include <arki/utils/sys.h>
#include <cstring>
#include <new>
#include <sys/mman.h>

using namespace mc;
using namespace arki;
using namespace arki::types;

// While guarded, memory is allocated at the end of a page that is followed by
// one that cannot be accessed: reading or writing after the end is a crash.
// What is freed is filled, and freeing twice is a crash.
namespace guard {

constexpr size_t page  = 4096;
constexpr size_t slots = 8192;
uint8_t* pool          = nullptr;
bool on                = false;
unsigned ring[slots + 1];
size_t head = 0, tail = 0;
uint8_t used[slots];
uint16_t sizes[slots];

void setup()
{
    if (pool)
        return;
    pool = (uint8_t*)mmap(nullptr, 2 * page * (slots + 1), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (pool == MAP_FAILED)
        abort();
    pool += page;
    for (size_t i = 0; i < slots; ++i)
    {
        mprotect(pool + 2 * page * i, page, PROT_READ | PROT_WRITE);
        ring[tail++] = i;
    }
}

void* get(size_t size)
{
    if (!on || size > page || head == tail)
        return nullptr;
    unsigned s = ring[head];
    head       = (head + 1) % (slots + 1);
    used[s]    = 1;
    uint8_t* p = pool + 2 * page * s;
    sizes[s]   = size;
    memset(p + page - size, 0xcd, size);
    return p + page - size;
}

bool put(void* p)
{
    if (!pool || (uint8_t*)p < pool || (uint8_t*)p > pool + 2 * page * slots)
        return false;
    // An empty allocation is at the end of the page
    size_t s = ((uint8_t*)p - pool - ((uintptr_t)p % page == 0 && ((uint8_t*)p - pool) / page % 2 == 1)) / (2 * page);
    if (!used[s])
        abort();
    used[s] = 0;
    memset(pool + 2 * page * s + page - sizes[s], 0xdd, sizes[s]);
    ring[tail] = s;
    tail       = (tail + 1) % (slots + 1);
    return true;
}

struct Scope
{
    Scope() { on = true; }
    ~Scope() { on = false; }
};

} // namespace guard

void* operator new(size_t size)
{
    if (void* p = guard::get(size))
        return p;
    if (void* p = malloc(size ? size : 1))
        return p;
    throw std::bad_alloc();
}
void* operator new[](size_t size) { return operator new(size); }
void operator delete(void* p) noexcept
{
    if (!guard::put(p))
        free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

namespace {

typedef std::vector<uint8_t> Bytes;

std::string hex(const Bytes& b)
{
    static const char* d = "0123456789abcdef";
    std::string res;
    for (auto c : b)
    {
        res += d[c >> 4];
        res += d[c & 15];
    }
    return res;
}

// All the damaged versions of some data
void damage(const Bytes& b, bool all, const std::function<void(const Bytes&)>& f)
{
    f(b);
    for (size_t i = 0; i < b.size(); ++i)
        f(Bytes(b.begin(), b.begin() + i));
    for (size_t i = 0; i < b.size(); ++i)
    {
        Bytes m    = b;
        uint8_t v  = b[i];
        auto apply = [&](uint8_t n) {
            if (n == v)
                return;
            m[i] = n;
            f(m);
        };
        if (all)
            for (unsigned n = 0; n < 256; ++n)
                apply(n);
        else
        {
            std::set<uint8_t> vals{0, 1, 2, 3, 4, 7, 8, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff, (uint8_t)(v ^ 1), (uint8_t)(v ^ 0x80), (uint8_t)(v + 1), (uint8_t)(v - 1)};
            for (auto n : vals)
                apply(n);
        }
    }
    for (size_t i = 0; i < b.size(); ++i)
    {
        Bytes m = b;
        m.erase(m.begin() + i);
        f(m);
        for (uint8_t n : {0x00, 0x01, 0x7f, 0xff})
        {
            m = b;
            m.insert(m.begin() + i, n);
            f(m);
        }
    }
    // Two neighbours, as in a field of more bytes
    for (size_t i = 0; i + 1 < b.size(); ++i)
        for (unsigned n : {0x0000, 0x0001, 0x7fff, 0x8000, 0xffff, 0xff00})
        {
            Bytes m  = b;
            m[i]     = n >> 8;
            m[i + 1] = n;
            f(m);
        }
    // Lengths
    for (size_t i = 0; i + 3 < b.size(); ++i)
        for (uint8_t n : {0x7f, 0x80, 0xff})
        {
            Bytes m = b;
            m[i]    = n;
            for (unsigned j = 1; j < 4; ++j)
                m[i + j] = n == 0x80 ? 0 : 0xff;
            f(m);
        }
}

// All the damaged versions of some text
void damage(const std::string& b, bool all, const std::function<void(const std::string&)>& f)
{
    static const std::string some("\0\x01\t\n \"'(),-./09:;=<>@AZ[\\]_az{|}%#+&*\x7f\x80\xff", 44);
    f(b);
    for (size_t i = 0; i < b.size(); ++i)
        f(b.substr(0, i));
    for (size_t i = 0; i < b.size(); ++i)
    {
        std::string m = b;
        m.erase(i, 1);
        f(m);
        if (all)
            for (unsigned n = 0; n < 256; ++n)
            {
                m    = b;
                m[i] = n;
                f(m);
            }
        for (char n : some)
        {
            m    = b;
            m[i] = n;
            f(m);
            m = b;
            m.insert(i, 1, n);
            f(m);
        }
        for (const char* s : {"99999999999", "-99999999999", "1e99", "\\u12", "%s%n", "((((", "[[", "{{"})
        {
            m = b;
            m.replace(i, 1, s);
            f(m);
            m = b;
            m.insert(i, s);
            f(m);
        }
    }
}

// Exceptions are the expected answer to damaged data
template <typename F> bool refused(F f)
{
    try
    {
        f();
        return false;
    }
    catch (std::exception&)
    {
        return true;
    }
}

// Look at all of an item
void use(const Type& t, const Type& orig)
{
    refused([&] { t.to_string(); });
    refused([&] { t.encodeBinary(); });
    refused([&] { t.exactQuery(); });
    refused([&] { t.cloneType()->encodeBinary(); });
    refused([&] {
        if (t.type_code() == orig.type_code())
        {
            t.equals(orig);
            orig.equals(t);
        }
        t.compare(orig);
        orig.compare(t);
        t.compare(t);
    });
    refused([&] {
        structured::Memory mem;
        t.serialise(mem, structured::keys_json);
    });
    refused([&] {
        std::vector<uint8_t> buf;
        core::BinaryEncoder enc(buf);
        t.encode_for_indexing(enc);
    });
}

Code code_of(const std::string& name)
{
    for (auto& c : typegrid::all_codes())
        if (name == c.second)
            return c.first;
    throw std::runtime_error("unknown type " + name);
}

std::vector<typegrid::Item> pick(Code code, size_t max)
{
    // The items with different lengths and styles, and others evenly
    auto g = typegrid::grid(code, false);
    std::vector<typegrid::Item> res;
    std::set<std::pair<size_t, int>> seen;
    size_t step = 1 + g.v.size() / max;
    for (size_t i = 0; i < g.v.size(); ++i)
    {
        auto enc = g.v[i].item->encodeBinary();
        bool add = i % step == 0;
        if (enc.size() < 80 && enc.size() > 3 && seen.emplace(enc.size(), enc[2]).second)
            add = true;
        if (add && enc.size() < 400)
            res.push_back(g.v[i].item);
    }
    return res;
}

const std::vector<std::pair<const char*, std::vector<const char*>>> exprs{
    {"origin", {"GRIB1,1,2,3", "GRIB2,1,2,3,4,5", "BUFR,1,2", "ODIMH5,a,b,c", "GRIB1,,,", "GRIB2", "BUFR", "ODIMH5"}},
    {"product", {"GRIB1,1,2,3", "GRIB2,1,2,3,4,5,6", "BUFR,1,2,3:t=x", "BUFR:t=1,s=x", "ODIMH5,a,b", "VM2,1", "GRIB1,,,"}},
    {"level", {"GRIB1,1,2,3", "GRIB1", "GRIB2S,1,2,3", "GRIB2D,1,2,3,4,5,6", "ODIMH5,1 2 3", "ODIMH5,range 1 20", "ODIMH5,1 3 offset 2"}},
    {"timerange", {"GRIB1,0,12h", "GRIB1", "GRIB2,1,2,3,4", "GRIB2", "BUFR,6h", "BUFR", "Timedef,6h,1,3h", "Timedef,+6h,-", "Timedef,6h", "Timedef,72h,1,6h"}},
    {"area", {"GRIB:a=1,b=x", "ODIMH5:lat=0,lon=0", "GRIB:", "bbox equals POINT (1 1)"}},
    {"proddef", {"GRIB:a=1,b=x", "GRIB:"}},
    {"run", {"MINUTE", "MINUTE,12", "MINUTE,12:30"}},
    {"task", {"abc", ""}},
    {"quantity", {"a,b", "a"}},
    {"reftime", {"=2007-07-07", ">=2007-01,<2008", "=%6h", "=today", ">yesterday 12:00", "=2007-07-07 12:00:00%6h", "<=2 days ago", ">=midday,<=noon tomorrow"}},
};

void task_item(Ctx& c, Code code, size_t first, size_t step)
{
    matcher::Parser parser;
    std::vector<Matcher> ms;
    for (auto& e : exprs)
        if (formatCode(code) == e.first || (code == TYPE_AREA && e.first == std::string("area")))
            for (auto x : e.second)
                ms.push_back(parser.parse(cat(e.first, ":", x)));
    size_t i = 0;
    for (auto& it : pick(code, args.thorough ? 300 : 40))
    {
        if (i++ % step != first)
            continue;
        Bytes inner;
        core::BinaryEncoder ienc(inner);
        it->encodeWithoutEnvelope(ienc);
        damage(inner, args.thorough || inner.size() <= 6, [&](const Bytes& b) {
            c.current(cat("decoding an item of type ", formatCode(code), " from ", hex(b)));
            guard::Scope s;
            for (bool reuse : {false, true})
            {
                Bytes b1(b);
                refused([&] {
                    core::BinaryDecoder dec(b1);
                    auto t = Type::decode_inner(code, dec, reuse);
                    if (dec.size > b1.size())
                        throw Fail("overrun", cat("decoding ", formatCode(code), " from ", hex(b), " says that it read more than there is"));
                    use(*t, *it);
                });
            }
            Bytes b1(b);
            for (auto& m : ms)
                refused([&] { m.get(code)->match_buffer(code, b1.data(), b1.size()); });
            c.eval(2 + ms.size());
            c.states();
        });
        Bytes enc = it->encodeBinary();
        damage(enc, false, [&](const Bytes& b) {
            c.current(cat("decoding an item from ", hex(b)));
            guard::Scope s;
            Bytes b1(b);
            refused([&] {
                core::BinaryDecoder dec(b1);
                auto t = Type::decode(dec);
                if (t)
                    use(*t, *it);
            });
            c.eval();
            c.states();
        });
        c.distinct(it->tag() + it->to_string());
    }
}

void task_text(Ctx& c, Code code, size_t first, size_t step)
{
    size_t i = 0;
    for (auto& it : pick(code, args.thorough ? 100 : 12))
    {
        std::string txt;
        if (i++ % step != first || refused([&] { txt = it->to_string(); }))
            continue;
        damage(txt, args.thorough, [&](const std::string& b) {
            c.current(cat("parsing an item of type ", formatCode(code), " from ", quote(b)));
            guard::Scope s;
            std::string b1(b);
            refused([&] { use(*decodeString(code, b1), *it); });
            c.eval();
            c.states();
        });
        std::stringstream out;
        structured::JSON json(out);
        it->serialise(json, structured::keys_json);
        damage(out.str(), false, [&](const std::string& b) {
            c.current(cat("parsing an item of type ", formatCode(code), " from ", quote(b)));
            guard::Scope s;
            std::string b1(b);
            refused([&] {
                structured::Memory mem;
                structured::JSON::parse(b1, mem);
                use(*decode_structure(structured::keys_json, mem.root()), *it);
            });
            c.eval();
            c.states();
        });
        c.distinct("text " + it->tag() + txt);
    }
}

// Metadata of different kinds
std::shared_ptr<Metadata> sample_md(unsigned i)
{
    auto md = std::make_shared<Metadata>();
    md->set(Reftime::createPosition(core::Time(2007, 7, 8, 13, 0, i)));
    md->set(Origin::createGRIB1(200, 0, 10 + i));
    md->set(Product::createGRIB1(200, 140, 229));
    if (i != 1)
    {
        md->set(Level::createGRIB1(1, 0));
        md->set(Timerange::createGRIB1(0, 1, 6, 0));
    }
    if (i == 2)
    {
        ValueBag b = ValueBag::parse("a=1, b=test, c=100000");
        md->set(area::GRIB::create(b));
        md->set(Proddef::createGRIB(b));
        md->set(Task::create("task"));
        md->set(Quantity::create("a,b"));
        md->set(Run::createMinute(12));
        md->add_note(Note::create(core::Time(2010, 1, 1, 0, 0, 0), "first"));
        md->add_note(Note::create(core::Time(2010, 1, 2, 0, 0, 0), "second"));
    }
    md->set(Value::create("value"));
    if (i == 1)
    {
        Bytes data{'G', 'R', 'I', 'B', '7', '7', '7', '7'};
        md->set_source_inline(DataFormat::GRIB, metadata::DataManager::get().to_data(DataFormat::GRIB, std::move(data)));
    }
    else
        md->set_source(Source::createBlobUnlocked(DataFormat::GRIB, "/nonexistent", "file.grib", 1000 * i, 34960));
    return md;
}

void use(const Metadata& md)
{
    refused([&] { md.to_yaml(); });
    refused([&] { md.encodeBinary(); });
    refused([&] { md.clone()->encodeBinary(); });
    refused([&] {
        structured::Memory mem;
        md.serialise(mem, structured::keys_json);
    });
    for (bool skip_data : {false, true})
        refused([&] {
            auto out = StreamOutput::create_discard();
            md.write(*out, skip_data);
        });
    refused([&] {
        Summary s;
        s.add(md);
        s.encode();
    });
}

void read_all(const Bytes& b)
{
    refused([&] {
        core::MemoryFile in(b.data(), b.size(), "memory");
        metadata::AbstractFileBinaryReader reader(in, "/nonexistent");
        reader.read_all([&](std::shared_ptr<Metadata> md) {
            use(*md);
            return true;
        });
    });
}

void read_one(const Bytes& b)
{
    refused([&] {
        core::MemoryFile in(b.data(), b.size(), "memory");
        metadata::AbstractFileBinaryReader reader(in, "/nonexistent");
        while (auto md = reader.read())
            use(*md);
    });
}

void read_stream(const Bytes& b)
{
    refused([&] {
        metadata::Stream stream(
            [&](std::shared_ptr<Metadata> md) {
                use(*md);
                return true;
            },
            "/nonexistent");
        stream.readData(b.data(), b.size());
    });
}

Bytes encoded(Metadata& md)
{
    Bytes res = md.encodeBinary();
    if (md.has_source() && md.source().style() == Source::Style::INLINE)
    {
        auto data = md.get_data().read();
        res.insert(res.end(), data.begin(), data.end());
    }
    return res;
}

void use(const Summary& s)
{
    refused([&] { s.encode(); });
    refused([&] { s.encode(true); });
    refused([&] { s.count(); s.size(); s.get_reference_time(); });
    refused([&] {
        structured::Memory mem;
        s.serialise(mem, structured::keys_json);
    });
    refused([&] {
        Summary s2;
        s2.add(s);
        s2 == s;
    });
}

void fill(Summary& s)
{
    for (unsigned i = 0; i < 3; ++i)
        s.add(*sample_md(i));
}

// The old encoding of summaries, with the items of each row in nested stripes
Bytes old_summary()
{
    Bytes res;
    core::BinaryEncoder enc(res);
    auto item = [&](const Type& t, unsigned lenbytes) {
        Bytes inner;
        core::BinaryEncoder ienc(inner);
        t.encodeWithoutEnvelope(ienc);
        enc.add_unsigned(inner.size(), lenbytes);
        enc.add_raw(inner);
    };
    // One stripe with the first two items, and two children
    enc.add_unsigned(2u, 2);
    item(*Origin::createGRIB1(200, 0, 10), 1);
    item(*Product::createGRIB1(200, 140, 229), 1);
    enc.add_unsigned(2u, 2);
    for (unsigned i = 0; i < 2; ++i)
    {
        enc.add_unsigned(1u, 2);
        item(*Level::createGRIB1(1, i), 1);
        enc.add_unsigned(0u, 2);
        summary::Stats st(*sample_md(i));
        Bytes inner;
        core::BinaryEncoder ienc(inner);
        st.encodeWithoutEnvelope(ienc);
        enc.add_unsigned(inner.size(), 2);
        enc.add_raw(inner);
    }
    return res;
}

void decode_summary(const Bytes& b, unsigned version)
{
    refused([&] {
        Summary s;
        core::BinaryDecoder dec(b);
        s.read_inner(dec, version, "memory");
        use(s);
    });
}

// Compressed data: damage what is inside, and then what is outside
Bytes with_size(const Bytes& b, uint32_t size)
{
    Bytes res;
    core::BinaryEncoder enc(res);
    enc.add_unsigned(size, 4);
    Bytes comp = utils::compress::lzo(b.data(), b.size());
    enc.add_raw(comp);
    return res;
}
Bytes bundle(const char* sig, unsigned version, const Bytes& b)
{
    Bytes res;
    core::BinaryEncoder enc(res);
    enc.add_string(sig);
    enc.add_unsigned(version, 2);
    enc.add_unsigned((uint32_t)b.size(), 4);
    enc.add_raw(b);
    return res;
}
Bytes prefix(uint8_t first, const Bytes& b)
{
    Bytes res{first};
    res.insert(res.end(), b.begin(), b.end());
    return res;
}
// Sizes for uncompressed data that are so large are refused or allocated as
// asked: leave them out
bool large(const Bytes& b, size_t pos) { return b.size() > pos && (b[pos] || (b.size() > pos + 1 && b[pos + 1] > 1)); }

typedef std::function<void(const Bytes&)> consumer;

void damaged(Ctx& c, const char* what, const Bytes& b, const consumer& f)
{
    damage(b, args.thorough, [&](const Bytes& m) {
        c.current(cat(what, ": ", hex(m)));
        {
            guard::Scope s;
            Bytes m1(m);
            f(m1);
        }
        c.eval();
        c.states();
    });
}
void damaged_text(Ctx& c, const char* what, const std::string& b, const std::function<void(const std::string&)>& f)
{
    damage(b, args.thorough, [&](const std::string& m) {
        c.current(cat(what, ": ", quote(m)));
        {
            guard::Scope s;
            std::string m1(m);
            refused([&] { f(m1); });
        }
        c.eval();
        c.states();
    });
}

void task_doc(Ctx& c, const std::string& what, unsigned n)
{
    if (what == "metadata")
    {
        Bytes b = encoded(*sample_md(n));
        damaged(c, "reading metadata", b, read_all);
        damaged(c, "reading metadata one by one", b, read_one);
        damaged(c, "reading a stream of metadata", b, read_stream);
        // The second one, after a good one
        Bytes first = encoded(*sample_md(1));
        damaged(c, "reading the second metadata", b, [&](const Bytes& m) {
            Bytes all = first;
            all.insert(all.end(), m.begin(), m.end());
            read_all(all);
        });
    }
    else if (what == "group")
    {
        Bytes group;
        for (unsigned i : {0, 2})
        {
            Bytes e = sample_md(i)->encodeBinary();
            group.insert(group.end(), e.begin(), e.end());
        }
        if (n == 0)
            damaged(c, "reading metadata in a group", group, [&](const Bytes& m) { read_all(bundle("MG", 0, with_size(m, m.size()))); });
        else
            damaged(c, "reading a group of metadata", bundle("MG", 0, with_size(group, group.size())), [&](const Bytes& m) {
                if (!large(m, 8))
                    read_all(m);
            });
    }
    else if (what == "summary")
    {
        Summary s;
        fill(s);
        Bytes enc = s.encode();
        Bytes inner(enc.begin() + 9, enc.end());
        switch (n)
        {
            case 0: damaged(c, "reading a summary", inner, [&](const Bytes& m) { decode_summary(prefix(0, m), 3); }); break;
            case 1:
                damaged(c, "reading a compressed summary", prefix(1, with_size(inner, inner.size())), [&](const Bytes& m) {
                    if (!large(m, 1))
                        decode_summary(m, 3);
                });
                break;
            case 2: damaged(c, "reading an old summary", old_summary(), [&](const Bytes& m) { decode_summary(m, 1); }); break;
            case 3:
                damaged(c, "reading a file with a summary", enc, [&](const Bytes& m) {
                    refused([&] {
                        core::MemoryFile in(m.data(), m.size(), "memory");
                        Summary s;
                        s.read(in);
                        use(s);
                    });
                    refused([&] {
                        core::BinaryDecoder dec(m);
                        Summary s;
                        s.read(dec, "memory");
                        use(s);
                    });
                });
                break;
        }
    }
    else if (what == "json")
    {
        std::stringstream out;
        structured::JSON json(out);
        if (n < 3)
        {
            sample_md(n == 1 ? 0 : n)->serialise(json, structured::keys_json);
            damaged_text(c, "reading metadata in JSON", out.str(), [](const std::string& m) {
                structured::Memory mem;
                structured::JSON::parse(m, mem);
                auto md = Metadata::read_structure(structured::keys_json, mem.root());
                use(*md);
            });
        }
        else
        {
            Summary s;
            fill(s);
            s.serialise(json, structured::keys_json);
            damaged_text(c, "reading a summary in JSON", out.str(), [](const std::string& m) {
                structured::Memory mem;
                structured::JSON::parse(m, mem);
                Summary s;
                s.read(structured::keys_json, mem.root());
                use(s);
            });
        }
    }
    else if (what == "yaml")
    {
        if (n < 3)
            damaged_text(c, "reading metadata in YAML", sample_md(n == 1 ? 0 : n)->to_yaml(), [](const std::string& m) {
                core::MemoryFile in(m.data(), m.size(), "memory");
                metadata::YamlReader reader(in, "/nonexistent");
                while (auto md = reader.read())
                    use(*md);
            });
        else
        {
            Summary s;
            fill(s);
            damaged_text(c, "reading a summary in YAML", s.to_yaml(), [](const std::string& m) {
                auto in = core::LineReader::from_chars(m.data(), m.size());
                Summary s;
                while (s.readYaml(*in, "memory"))
                    ;
                use(s);
            });
        }
    }
    else if (what == "query")
    {
        matcher::Parser parser;
        auto& e = exprs[n];
        for (auto x : e.second)
            damaged_text(c, "parsing a query", cat(e.first, ":", x), [&](const std::string& m) {
                // Do not ask for computations of bounding boxes that can take forever
                Matcher q = parser.parse(m);
                q.toString();
                q.toStringExpanded();
                for (unsigned i = 0; i < 3; ++i)
                    refused([&] { q(*sample_md(i)); });
                core::Interval interval;
                refused([&] { q.intersect_interval(interval); });
            });
    }
    else if (what == "config")
    {
        damaged_text(c, "parsing a configuration", "[test1]\n; comment\ntype = iseg\npath=\"/tmp/test\"  \nfilter: origin:GRIB1\n\n[test2]\nname = x # y\n", [](const std::string& m) {
            auto s = core::cfg::Sections::parse(m);
            for (auto& x : *s)
                x.second->to_string();
            s->to_string();
        });
        damaged_text(c, "parsing a section", "type = iseg\nstep=daily\n[x]\n", [](const std::string& m) { core::cfg::Section::parse(m)->to_string(); });
    }
    else if (what == "sort")
    {
        damaged_text(c, "parsing a sort expression", "hour:-reftime,origin, +product", [](const std::string& m) {
            auto s = metadata::sort::Compare::parse(m);
            s->toString();
            s->compare(*sample_md(0), *sample_md(2));
        });
    }
    else if (what == "time")
    {
        damaged_text(c, "parsing a time", "2007-07-08T12:13:14Z", [](const std::string& m) { core::Time::decodeString(m).to_iso8601(); });
        damaged_text(c, "parsing a value bag", "a=1, b=\"x \\x20\\n\", c = -70000,d", [](const std::string& m) { ValueBag::parse(m).toString(); });
        damaged_text(c, "parsing a value bag matcher", "a=1, b=\"x \\x20\\n\", c = -70000,d", [](const std::string& m) { ValueBagMatcher::parse(m).to_string(); });
    }
    else if (what == "bag")
    {
        for (const char* txt : {"a=1", "a=1000000, b=xyz, cc=-3", "a=1, b=-100, c=-1000000, d=a"})
        {
            auto orig = ValueBag::parse(txt);
            Bytes enc;
            core::BinaryEncoder e(enc);
            orig.encode(e);
            auto matcher = ValueBagMatcher::parse("a=1, b=xyz, d=a");
            for (bool reuse : {false, true})
                damaged(c, "decoding values", enc, [&](const Bytes& m) {
                    refused([&] {
                        core::BinaryDecoder dec(m);
                        auto v = reuse ? ValueBag::decode_reusing_buffer(dec) : ValueBag::decode(dec);
                        refused([&] { v.toString(); });
                        refused([&] { v.compare(orig); orig.compare(v); });
                        refused([&] { matcher.is_subset(v); });
                        refused([&] {
                            Bytes b;
                            core::BinaryEncoder e(b);
                            v.encode(e);
                        });
                        refused([&] {
                            structured::Memory mem;
                            v.serialise(mem);
                        });
                    });
                });
        }
    }
    else if (what == "lzo")
    {
        std::string src;
        for (unsigned i = 0; i < 40; ++i)
            src += cat("some data ", i * i % 7, (i % 5 ? "some data " : "xyzzy"));
        Bytes comp = utils::compress::lzo(src.data(), src.size());
        damaged(c, "uncompressing", comp, [&](const Bytes& m) { refused([&] { utils::compress::unlzo(m.data(), m.size(), src.size()); }); });
        damaged(c, "uncompressing with a smaller size", comp, [&](const Bytes& m) { refused([&] { utils::compress::unlzo(m.data(), m.size(), src.size() / 2); }); });
    }
    else
        throw std::runtime_error("unknown task " + what);
}

void c25()
{
    init();
    guard::setup();
    note("damage", args.thorough ? "truncations, all values of each byte, deletions, insertions, pairs of bytes and lengths" : "truncations, 25 values of each byte, deletions, insertions, pairs of bytes and lengths");
    note("detection", "guard pages after each buffer and each allocation, freed memory filled, 60 s for hangs");
    std::vector<std::string> tasks;
    for (auto& code : typegrid::all_codes())
        for (unsigned i = 0; i < 4; ++i)
        {
            tasks.push_back(cat("item|", code.second, "|", i));
            tasks.push_back(cat("text|", code.second, "|", i));
        }
    for (unsigned i = 0; i < 3; ++i)
        tasks.push_back(cat("doc|metadata|", i));
    for (unsigned i = 0; i < 2; ++i)
        tasks.push_back(cat("doc|group|", i));
    for (unsigned i = 0; i < 4; ++i)
    {
        tasks.push_back(cat("doc|summary|", i));
        tasks.push_back(cat("doc|json|", i));
        tasks.push_back(cat("doc|yaml|", i));
    }
    for (unsigned i = 0; i < exprs.size(); ++i)
        tasks.push_back(cat("doc|query|", i));
    for (auto s : {"config", "sort", "time", "bag", "lzo"})
        tasks.push_back(cat("doc|", s, "|0"));
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        auto f = mc::split(task, '|');
        if (f[0] == "item")
            task_item(c, code_of(f[1]), std::stoul(f[2]), 4);
        else if (f[0] == "text")
            task_text(c, code_of(f[1]), std::stoul(f[2]), 4);
        else
            task_doc(c, f[1], std::stoul(f[2]));
        c.distinct(task);
        c.sample(task);
    });
}
mc::Register r25("C25", c25);

} // namespace
