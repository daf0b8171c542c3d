// Metadata documents: what is in memory is what the operations say, and what
// is written to a stream is what is read, whatever the fragments, and a prefix
// of it when it is truncated
#include "mc.h"
#include "mcsys.h"
#include <arki/core/binary.h>
#include <arki/core/file.h>
#include <arki/core/time.h>
#include <arki/metadata.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/stream.h>
#include <arki/runtime.h>
#include <arki/stream.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/types/area.h>
#include <arki/types/level.h>
#include <arki/types/note.h>
#include <arki/types/origin.h>
#include <arki/types/proddef.h>
#include <arki/types/product.h>
#include <arki/types/quantity.h>
#include <arki/types/reftime.h>
#include <arki/types/run.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/task.h>
#include <arki/types/timerange.h>
#include <arki/types/value.h>
#include <arki/utils/sys.h>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace mc;
using namespace arki;
using namespace arki::types;

namespace {

typedef std::vector<uint8_t> Bytes;
typedef std::shared_ptr<Metadata> MD;

// Kinds of metadata
constexpr unsigned KINDS = 11;
constexpr unsigned BIG   = 3;

std::shared_ptr<metadata::Data> grib_data(Bytes b) { return metadata::DataManager::get().to_data(DataFormat::GRIB, std::move(b)); }

void base(Metadata& md, unsigned i)
{
    md.set(Reftime::createPosition(core::Time(2007, 7, 8, 13, 0, i)));
    md.set(Origin::createGRIB1(200, 0, 10 + i));
    md.set(Product::createGRIB1(200, 140, 229));
}

MD sample(unsigned kind)
{
    auto md = std::make_shared<Metadata>();
    base(*md, kind);
    switch (kind)
    {
        case 0: md->set_source(Source::createBlobUnlocked(DataFormat::GRIB, "/nonexistent", "a/file.grib", 1000, 34960)); break;
        case 1: md->set_source_inline(DataFormat::GRIB, grib_data({'G', 'R', 'I', 'B', '7', '7', '7', '7'})); break;
        case 2: md->set_source_inline(DataFormat::GRIB, grib_data({})); break;
        case BIG: {
            Bytes b(70000);
            for (unsigned i = 0; i < b.size(); ++i)
                b[i] = i * 31 + i / 256;
            md->set_source_inline(DataFormat::GRIB, grib_data(b));
            break;
        }
        case 4: md->set_source(Source::createURL(DataFormat::BUFR, "http://example.org/dataset")); break;
        case 5: {
            // Data that looks like metadata
            Bytes b{'M', 'D', 0, 0, 0, 0, 0, 2, 'M', 'G'};
            md->set(Level::createGRIB1(1, 0));
            md->set(Area::decodeString("GRIB(a=1, b=test)"));
            md->set(Proddef::decodeString("GRIB(t=1000000)"));
            md->add_note(Note::create(core::Time(2010, 1, 1, 0, 0, 0), "first note"));
            md->add_note(Note::create(core::Time(2010, 1, 2, 3, 4, 5), "second"));
            md->set_source_inline(DataFormat::GRIB, grib_data(b));
            break;
        }
        case 6: {
            // Only a source
            auto m = std::make_shared<Metadata>();
            m->set_source(Source::createBlobUnlocked(DataFormat::ODIMH5, "/nonexistent", "b.odim", 0, 1));
            return m;
        }
        case 7:
            md->set(Value::create("value, with separators"));
            md->set(Task::create(std::string(300, 't')));
            md->add_note(Note::create(core::Time(2010, 1, 1, 0, 0, 0), std::string(5000, 'n')));
            md->set_source(Source::createBlobUnlocked(DataFormat::GRIB, "/nonexistent", std::string(200, 'f'), 1000, 34960));
            break;
        case 9:
            // No source
            md->set(Value::create("v"));
            break;
        case 10: return std::make_shared<Metadata>();
        case 8:
            md->set(Level::createGRIB2S(1, 2, 3));
            md->set(Timerange::createTimedef(6, timerange::UNIT_HOUR));
            md->set(Run::createMinute(12, 30));
            md->set(Quantity::create("a,b,c"));
            md->set_source_inline(DataFormat::GRIB, grib_data({0}));
            break;
    }
    return md;
}

// What a metadata is, with its inline data
std::string describe(Metadata& md)
{
    auto enc = md.encodeBinary();
    std::string res(enc.begin(), enc.end());
    if (md.has_source() && md.source().style() == Source::Style::INLINE)
    {
        auto d = md.get_data().read();
        res += cat("|data:", d.size(), ":");
        res.append(d.begin(), d.end());
    }
    return res;
}

std::string names(const std::vector<unsigned>& seq)
{
    std::string res;
    for (auto i : seq)
        res += cat(res.empty() ? "" : ",", i);
    return "metadata of kinds [" + res + "]";
}

// Input in fragments
struct Fragments : core::AbstractInputFile
{
    const Bytes& data;
    size_t pos = 0, end;
    std::vector<size_t> cuts; // where a read cannot go over
    size_t max;

    Fragments(const Bytes& data, size_t end, const std::vector<size_t>& cuts, size_t max = 1 << 30) : data(data), end(end), cuts(cuts), max(max) {}
    std::filesystem::path path() const override { return "memory"; }
    size_t limit(size_t size)
    {
        size = std::min(size, max);
        for (auto c : cuts)
            if (c > pos && c - pos < size)
                size = c - pos;
        return size;
    }
    size_t read(void* dest, size_t size) override
    {
        size = limit(std::min(size, end - pos));
        memcpy(dest, data.data() + pos, size);
        pos += size;
        return size;
    }
};

Fragments* frag = nullptr;
int frag_fd     = -1;
size_t limit_read(int fd, size_t len)
{
    if (!frag || fd != frag_fd)
        return len;
    off_t p   = lseek(fd, 0, SEEK_CUR);
    frag->pos = p;
    return frag->limit(len);
}

struct Read
{
    std::vector<std::string> items;
    std::string error;
    bool completed = true;
};

enum Way
{
    ABSTRACT_ALL,
    ABSTRACT_ONE,
    FD_ALL,
    FD_ONE,
    COLLECTION,
    STREAM,
    WAYS
};
const char* way_names[] = {"read_all on an abstract file", "read on an abstract file", "read_all on a file", "read on a file", "Collection::read_from_file", "Stream"};

int memfd = -1;

// Read all of the first `end` bytes, in some way, in fragments. The consumer
// stops at the given item.
Read read_back(Way way, const Bytes& data, size_t end, const std::vector<size_t>& cuts, size_t max, unsigned stop = 0xffffffff)
{
    Read res;
    auto dest = [&](MD md) {
        if (res.items.size() > stop)
            throw Fail("consumer", "called after it asked to stop");
        res.items.push_back(describe(*md));
        return res.items.size() <= stop;
    };
    Fragments f(data, end, cuts, max);
    try
    {
        switch (way)
        {
            case ABSTRACT_ALL: {
                metadata::AbstractFileBinaryReader r(f, "/nonexistent");
                res.completed = r.read_all(dest);
                break;
            }
            case ABSTRACT_ONE: {
                metadata::AbstractFileBinaryReader r(f, "/nonexistent");
                while (auto md = r.read())
                    if (!dest(md))
                        break;
                break;
            }
            case FD_ALL:
            case FD_ONE:
            case COLLECTION: {
                if (memfd == -1)
                    memfd = memfd_create("input", 0);
                if (ftruncate(memfd, 0) == -1 || pwrite(memfd, data.data(), end, 0) != (ssize_t)end)
                    throw std::runtime_error("cannot write the memory file");
                lseek(memfd, 0, SEEK_SET);
                core::NamedFileDescriptor fd(memfd, "memory");
                frag                = &f;
                frag_fd             = memfd;
                mc::sysx::read_limit = limit_read;
                struct Reset
                {
                    ~Reset() { mc::sysx::read_limit = nullptr; }
                } reset;
                metadata::BinaryReader r(fd, "/nonexistent");
                if (way == FD_ALL)
                    res.completed = r.read_all(dest);
                else if (way == FD_ONE)
                {
                    while (auto md = r.read())
                        if (!dest(md))
                            break;
                }
                else
                {
                    metadata::Collection c;
                    try
                    {
                        c.read_from_file(fd);
                    }
                    catch (...)
                    {
                        for (auto& md : c)
                            dest(md);
                        throw;
                    }
                    for (auto& md : c)
                        dest(md);
                }
                break;
            }
            case STREAM: {
                metadata::Stream s(dest, "/nonexistent");
                Bytes piece(end + 1);
                while (f.pos < f.end)
                {
                    size_t n = f.read(piece.data(), end);
                    s.readData(piece.data(), n);
                }
                res.completed = !s.consumer_canceled();
                break;
            }
            default: throw std::runtime_error("bug");
        }
    }
    catch (Fail&)
    {
        throw;
    }
    catch (std::exception& e)
    {
        res.error = e.what();
    }
    return res;
}

Bytes write_fd(const std::function<void(core::NamedFileDescriptor&)>& f)
{
    int fd = memfd_create("output", 0);
    core::NamedFileDescriptor out(fd, "memory");
    f(out);
    Bytes res(lseek(fd, 0, SEEK_END));
    if (pread(fd, res.data(), res.size(), 0) != (ssize_t)res.size())
        throw std::runtime_error("cannot read the memory file");
    close(fd);
    return res;
}

void same(const std::string& what, const std::vector<std::string>& want, const Read& got)
{
    if (!got.error.empty())
        throw Fail("error", what + ": " + got.error);
    if (got.items.size() != want.size())
        throw Fail("count", cat(what, ": ", want.size(), " metadata written, ", got.items.size(), " read"));
    for (size_t i = 0; i < want.size(); ++i)
        if (got.items[i] != want[i])
            throw Fail("contents", cat(what, ": metadata ", i, " is read as ", quote(got.items[i].substr(0, 300)), " instead of ", quote(want[i].substr(0, 300))));
}

void check_seq(Ctx& c, const std::vector<unsigned>& seq)
{
    std::vector<std::string> want;
    std::vector<MD> mds;
    std::vector<size_t> ends{0};
    Bytes data;
    for (auto k : seq)
    {
        mds.push_back(sample(k));
        want.push_back(describe(*mds.back()));
        Bytes b;
        auto out = StreamOutput::create(b);
        mds.back()->write(*out);
        auto b1 = write_fd([&](core::NamedFileDescriptor& fd) { mds.back()->write(fd); });
        if (b != b1)
            throw Fail("write", cat("metadata of kind ", k, " is written to a file in a different way than to a stream"));
        data.insert(data.end(), b.begin(), b.end());
        ends.push_back(data.size());
    }
    std::string what = names(seq);

    auto run = [&](Way way, size_t end, const std::vector<size_t>& cuts, size_t max, unsigned stop = 0xffffffff) {
        if (end != data.size() && end > data.size())
            return;
        std::string desc = cat(what, ", with ", way_names[way]);
        for (auto x : cuts)
            desc += cat(", cut at ", x);
        if (max < 100000)
            desc += cat(", at most ", max, " bytes at a time");
        if (end != data.size())
            desc += cat(", truncated at ", end, " of ", data.size());
        if (stop != 0xffffffff)
            desc += cat(", stopping after ", stop);
        c.current(desc);
        c.eval();
        auto got = read_back(way, data, end, cuts, max, stop);
        c.states();
        size_t n = 0;
        while (n < want.size() && ends[n + 1] <= end)
            ++n;
        // A metadata is not in the stream without its data
        std::vector<std::string> expected(want.begin(), want.begin() + n);
        if (stop < expected.size())
        {
            expected.resize(stop + 1);
            same(desc, expected, got);
            if (got.completed && way != ABSTRACT_ONE && way != FD_ONE && way != COLLECTION)
                throw Fail("stop", desc + ": it does not say that it was stopped");
            return;
        }
        if (end == ends[n])
        {
            same(desc, expected, got);
            if (!got.completed)
                throw Fail("stop", desc + ": it says that it was stopped");
            return;
        }
        // Truncated: the complete ones are read, and then there may be an error
        got.error.clear();
        if (way == COLLECTION)
            return;
        same(desc, expected, got);
    };

    bool is_short = data.size() <= (args.thorough ? 3000 : 700);
    // Lengths of interest: around all the boundaries
    std::set<size_t> points;
    for (size_t i = 0; i <= data.size(); ++i)
        if (is_short)
            points.insert(i);
    for (auto e : ends)
        for (int d : {-70001, -70000, -69999, -4, -1, 0, 1, 2, 3, 4, 7, 8, 9, 20, 40, 65536, 65537})
            if ((long)e + d >= 0 && e + d <= data.size())
                points.insert(e + d);

    for (unsigned w = 0; w < WAYS; ++w)
    {
        Way way = (Way)w;
        run(way, data.size(), {}, 1 << 30);
        for (size_t m : {1, 2, 3, 7, 8, 9, 100, 4096})
            if (data.size() / m < 3000)
                run(way, data.size(), {}, m);
        for (unsigned i = 0; i < seq.size() && way != COLLECTION; ++i)
        {
            run(way, data.size(), {}, 1 << 30, i);
            run(way, data.size(), {}, 100, i);
        }
        for (auto p : points)
        {
            if (p && p < data.size())
                run(way, data.size(), {p}, 1 << 30);
            run(way, p, {}, 1 << 30);
            if (is_short && p % 3 == 0)
                run(way, p, {}, 5);
        }
        // Pairs of cuts
        if (seq.size() <= (args.thorough ? 2 : 1) && data.size() < 400)
            for (size_t a = 1; a < data.size(); ++a)
                for (size_t b = a + 1; b < data.size(); ++b)
                    run(way, data.size(), {a, b}, 1 << 30);
    }

    c.distinct(what);
    c.traces();

    // Text and structured data, that do not have the data
    {
        std::string yaml;
        std::vector<std::string> texts;
        for (auto& md : mds)
        {
            if (md->encodeBinary().size() > 4000)
                return;
            texts.push_back(md->to_yaml());
            // An empty one cannot be told from a separator
            if (texts.back().empty())
                return;
            yaml += texts.back() + "\n";
        }
        for (size_t m : {1 << 30, 1, 13})
        {
            Bytes b(yaml.begin(), yaml.end());
            Fragments f(b, b.size(), {}, m);
            metadata::YamlReader r(f, "/nonexistent");
            size_t n = 0;
            r.read_all([&](MD md) {
                if (n >= mds.size())
                    throw Fail("yaml", what + ": too many are read");
                if (md->to_yaml() != texts[n] || !(md->encodeBinary() == mds[n]->encodeBinary()))
                    throw Fail("yaml", what + ": read as " + quote(md->to_yaml()) + " instead of " + quote(texts[n]));
                ++n;
                return true;
            });
            if (n != mds.size())
                throw Fail("yaml", cat(what, ": ", n, " are read from YAML"));
            c.eval();
        }
        for (auto& md : mds)
        {
            std::stringstream out;
            structured::JSON json(out);
            md->serialise(json, structured::keys_json);
            structured::Memory mem;
            std::string text = out.str();
            auto in          = core::BufferedReader::from_string(text);
            structured::JSON::parse(*in, mem);
            auto md1 = Metadata::read_structure(structured::keys_json, mem.root());
            if (md1->encodeBinary() != md->encodeBinary())
                throw Fail("json", what + ": read as " + quote(md1->to_yaml()) + " instead of " + quote(md->to_yaml()));
            c.eval();
        }
    }
}

// Collections, that are written in groups
void check_groups(Ctx& c, unsigned count, unsigned period)
{
    metadata::Collection mds;
    std::vector<std::string> want;
    for (unsigned i = 0; i < count; ++i)
    {
        auto md = std::make_shared<Metadata>();
        base(*md, i % 60);
        if (period && i % period == 0)
            md->set(Task::create(cat("task ", i * 2654435761u)));
        md->set_source(Source::createBlobUnlocked(DataFormat::GRIB, "/nonexistent", cat("file", i % 7), i * 100, 100));
        mds.push_back(md);
        want.push_back(describe(*md));
    }
    Bytes data = write_fd([&](core::NamedFileDescriptor& fd) { mds.write_to(fd); });
    Bytes data1;
    auto out = StreamOutput::create(data1);
    mds.write_to(*out);
    std::string what = cat("a collection of ", count, ", type ", period);
    if (data != data1)
        throw Fail("write", what + " is written to a file in a different way than to a stream");
    // Two of them, one after the other, as when appending
    for (unsigned times : {1, 2})
    {
        Bytes all;
        std::vector<std::string> all_want;
        for (unsigned i = 0; i < times; ++i)
        {
            all.insert(all.end(), data.begin(), data.end());
            all_want.insert(all_want.end(), want.begin(), want.end());
        }
        for (Way way : {ABSTRACT_ALL, FD_ALL, COLLECTION})
            for (size_t m : {1 << 30, 4096, 100, 7, 1})
            {
                if (all.size() / m > 20000)
                    continue;
                std::string desc = cat(what, " written ", times, " times, ", way_names[way], ", ", m, " bytes at a time");
                c.current(desc);
                same(desc, all_want, read_back(way, all, all.size(), {}, m));
                c.eval();
                c.states();
            }
        for (unsigned stop : {0u, 1u, 255u, 256u, 257u, 512u, count * times - 1})
            if (stop < all_want.size())
                for (Way way : {ABSTRACT_ALL, FD_ALL})
                {
                    std::string desc = cat(what, " written ", times, " times, ", way_names[way], ", stopping after ", stop);
                    c.current(desc);
                    auto got  = read_back(way, all, all.size(), {}, 1 << 30, stop);
                    auto some = all_want;
                    some.resize(stop + 1);
                    same(desc, some, got);
                    if (got.completed)
                        throw Fail("stop", desc + ": it does not say that it was stopped");
                    c.eval();
                    c.states();
                }
    }
    // Truncated at each byte of the first 2000, and others
    for (size_t n = 0; n < data.size(); n += n < 2000 ? 1 : 97)
    {
        std::string desc = cat(what, ", truncated at ", n, " of ", data.size());
        c.current(desc);
        auto got = read_back(FD_ALL, data, n, {}, 1 << 30);
        if (got.items.size() > want.size())
            throw Fail("truncation", desc + ": more are read than were written");
        auto some = want;
        some.resize(got.items.size());
        got.error.clear();
        same(desc, some, got);
        c.eval();
        c.states();
    }
    // The file on disk
    std::string dir = fresh_scratch();
    for (bool append : {false, true})
    {
        std::string fname = cat(dir, "/test", append, ".metadata");
        if (append)
        {
            mds.appendTo(fname);
            mds.appendTo(fname);
        }
        else
        {
            spew(fname, "something else");
            mds.writeAtomically(fname);
        }
        metadata::Collection got;
        got.read_from_file(fname);
        Read r;
        for (auto& md : got)
        {
            // The directory where the data is supposed to be is that of the file
            md->set_source(Source::createBlobUnlocked(md->sourceBlob().format, "/nonexistent", md->sourceBlob().filename, md->sourceBlob().offset, md->sourceBlob().size));
            r.items.push_back(describe(*md));
        }
        auto w = want;
        if (append)
            w.insert(w.end(), want.begin(), want.end());
        same(what + (append ? " appended to a file" : " written to a file"), w, r);
        c.eval();
    }
    c.distinct(what);
}

// A metadata as a set of values
struct Model
{
    std::map<Code, std::string> items;
    std::vector<std::string> notes;
    std::string source;
};

struct Op
{
    std::string name;
    std::function<void(Metadata&)> f;
    std::function<void(Model&)> m;
};

std::vector<Op> operations()
{
    std::vector<Op> res;
    auto set = [&](const char* name, std::function<std::unique_ptr<Type>()> make) {
        auto t = make();
        Code c = t->type_code();
        auto s = t->to_string();
        res.push_back({cat("set ", name), [make](Metadata& md) { md.test_set(make()); }, [c, s](Model& m) { m.items[c] = s; }});
    };
    set("origin a", [] { return Origin::createGRIB1(1, 2, 3); });
    set("origin b", [] { return Origin::createBUFR(1, 2); });
    set("product", [] { return Product::createGRIB1(1, 2, 3); });
    set("reftime", [] { return Reftime::createPosition(core::Time(2007, 1, 1)); });
    set("value", [] { return Value::create("x"); });
    for (Code c : {TYPE_ORIGIN, TYPE_REFTIME, TYPE_VALUE})
        res.push_back({cat("unset ", formatCode(c)), [c](Metadata& md) { md.unset(c); }, [c](Model& m) { m.items.erase(c); }});
    for (const char* n : {"x", "y"})
        res.push_back({cat("note ", n), [n](Metadata& md) { md.add_note(Note::create(core::Time(2010, 1, 1), n)); }, [n](Model& m) { m.notes.push_back(Note::create(core::Time(2010, 1, 1), n)->to_string()); }});
    res.push_back({"clear notes", [](Metadata& md) { md.clear_notes(); }, [](Model& m) { m.notes.clear(); }});
    res.push_back({"source blob", [](Metadata& md) { md.set_source(Source::createBlobUnlocked(DataFormat::GRIB, "/nonexistent", "f", 1, 2)); }, [](Model& m) { m.source = Source::createBlobUnlocked(DataFormat::GRIB, "/nonexistent", "f", 1, 2)->to_string(); }});
    res.push_back({"source inline", [](Metadata& md) { md.set_source_inline(DataFormat::GRIB, grib_data({1, 2, 3})); }, [](Model& m) { m.source = Source::createInline(DataFormat::GRIB, 3)->to_string(); }});
    res.push_back({"unset source", [](Metadata& md) { md.unset_source(); }, [](Model& m) { m.source.clear(); }});
    res.push_back({"copy notes", [](Metadata& md) {
                       Bytes b;
                       core::BinaryEncoder enc(b);
                       md.encode_notes(enc);
                       md.set_notes_encoded(b.data(), b.size());
                   },
                   [](Model&) {}});
    res.push_back({"merge", [](Metadata& md) {
                       Metadata o;
                       o.set(Origin::createGRIB1(9, 9, 9));
                       o.set(Level::createGRIB1(1, 0));
                       o.add_note(Note::create(core::Time(2010, 1, 1), "z"));
                       o.set_source(Source::createBlobUnlocked(DataFormat::GRIB, "/nonexistent", "g", 1, 2));
                       md.merge(o);
                   },
                   [](Model& m) {
                       m.items[TYPE_ORIGIN] = Origin::createGRIB1(9, 9, 9)->to_string();
                       m.items[TYPE_LEVEL]  = Level::createGRIB1(1, 0)->to_string();
                   }});
    return res;
}

void compare(const std::string& what, const Metadata& md, const Model& m)
{
    for (Code c : {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_REFTIME, TYPE_AREA, TYPE_PRODDEF, TYPE_RUN, TYPE_TASK, TYPE_QUANTITY, TYPE_VALUE})
    {
        auto i = m.items.find(c);
        if (md.has(c) != (i != m.items.end()))
            throw Fail("has", cat(what, ": has(", formatCode(c), ") is ", md.has(c)));
        const Type* t = md.get(c);
        if ((t != nullptr) != (i != m.items.end()) || (t && (t->type_code() != c || t->to_string() != i->second)))
            throw Fail("get", cat(what, ": get(", formatCode(c), ") is ", t ? t->to_string() : "missing"));
    }
    if (md.has_source() == m.source.empty() || (md.has_source() && md.source().to_string() != m.source))
        throw Fail("source", what + ": the source is " + (md.has_source() ? md.source().to_string() : "missing"));
    auto n = md.notes();
    std::vector<std::string> notes;
    for (auto i = n.first; i != n.second; ++i)
        notes.push_back((*i)->to_string());
    if (notes != m.notes)
        throw Fail("notes", what + ": the notes are " + mc::join(notes, "; "));
}

void check_ops(Ctx& c, const std::vector<Op>& ops, std::vector<unsigned>& seq, unsigned depth)
{
    Metadata md;
    Model m;
    std::string what;
    for (auto i : seq)
    {
        ops[i].f(md);
        ops[i].m(m);
        what += (what.empty() ? "" : ", ") + ops[i].name;
    }
    c.current(what);
    compare(what, md, m);
    c.transitions();
    // The same after writing and reading it
    auto enc = md.encodeBinary();
    core::BinaryDecoder dec(enc);
    std::string sig;
    unsigned ver;
    core::BinaryDecoder inner = dec.pop_metadata_bundle(sig, ver);
    if (sig != "MD" || dec.size != 0)
        throw Fail("encode", what + ": wrong encoding");
    auto md1 = Metadata::read_binary_inner(inner, ver, "memory", "/nonexistent");
    compare(what + ", after reading it", *md1, m);
    auto md2 = md.clone();
    compare(what + ", after copying it", *md2, m);
    for (auto o : {md1, md2})
    {
        if (!(*o == md) || *o != md || !(md == *o) || !o->items_equal(md))
            throw Fail("equality", what + ": it is not equal to its copy");
        if (o->encodeBinary() != enc || o->to_yaml() != md.to_yaml())
            throw Fail("encode", what + ": the copy is encoded in a different way");
        unsigned diffs = 0;
        md.diff_items(*o, [&](Code, const Type*, const Type*) { ++diffs; });
        if (diffs)
            throw Fail("diff", what + ": it is different from its copy");
    }
    // Changes to what was read do not change the original
    {
        Model m1 = m;
        for (auto& op : ops)
        {
            op.f(*md1);
            op.m(m1);
        }
        compare(what + ", after reading it and changing the copy", *md1, m1);
        compare(what + ", after changing a copy", md, m);
    }
    std::string key;
    for (auto& i : m.items)
        key += cat(i.first, i.second, "|");
    key += mc::join(m.notes, ";") + "|" + m.source;
    // Comparisons with all the others, by their number
    c.eval(5);
    if (c.distinct(key))
        c.states();
    if (seq.size() < depth)
        for (unsigned i = 0; i < ops.size(); ++i)
        {
            seq.push_back(i);
            check_ops(c, ops, seq, depth);
            seq.pop_back();
        }
}

// Equality and difference of all the pairs
void check_pairs(Ctx& c, const std::vector<Op>& ops)
{
    std::vector<std::pair<std::shared_ptr<Metadata>, Model>> all;
    for (unsigned i = 0; i < ops.size(); ++i)
        for (unsigned j = 0; j < ops.size(); ++j)
        {
            auto md = std::make_shared<Metadata>();
            Model m;
            for (auto x : {i, j})
            {
                ops[x].f(*md);
                ops[x].m(m);
            }
            all.emplace_back(md, m);
        }
    for (auto& a : all)
        for (auto& b : all)
        {
            auto ia = a.second.items, ib = b.second.items;
            bool eq = ia == ib && a.second.notes == b.second.notes && a.second.source == b.second.source;
            std::string what = quote(a.first->to_yaml()) + " and " + quote(b.first->to_yaml());
            if ((*a.first == *b.first) != eq || (*a.first != *b.first) == eq)
                throw Fail("equality", what + (eq ? ": they are the same" : ": they are different") + " but they compare otherwise");
            std::map<Code, std::pair<std::string, std::string>> want, got;
            // They do not look at values
            ia.erase(TYPE_VALUE);
            ib.erase(TYPE_VALUE);
            for (auto& i : ia)
                if (!ib.count(i.first) || ib[i.first] != i.second)
                    want[i.first].first = i.second;
            for (auto& i : ib)
                if (!ia.count(i.first) || ia[i.first] != i.second)
                    want[i.first].second = i.second;
            a.first->diff_items(*b.first, [&](Code code, const Type* x, const Type* y) {
                if (got.count(code))
                    throw Fail("diff", what + ": a difference is reported twice");
                got[code] = {x ? x->to_string() : "", y ? y->to_string() : ""};
            });
            if (want != got)
                throw Fail("diff", what + ": wrong differences");
            if (a.first->items_equal(*b.first) != (ia == ib))
                throw Fail("items_equal", what + ": items_equal is wrong");
            c.eval();
            c.transitions();
        }
}

void c20()
{
    init();
    unsigned maxlen = 3;
    note("streams", cat("all sequences up to ", maxlen, " of ", KINDS, " kinds of metadata, in 6 ways of reading, cut or truncated at each byte"));
    note("groups", "collections of 0 to 1030 metadata");
    std::vector<std::string> tasks;
    for (unsigned i = 0; i < KINDS; ++i)
        for (unsigned j = 0; j <= KINDS; ++j)
            tasks.push_back(cat("seq|", i, "|", j));
    for (unsigned n : {0, 1, 2, 3, 20, 255, 256, 257, 300, 512, 513, 1030})
        for (unsigned p : {0, 1, 3})
            tasks.push_back(cat("group|", n, "|", p));
    auto ops = operations();
    for (unsigned i = 0; i < ops.size(); ++i)
        tasks.push_back(cat("ops|", i, "|0"));
    tasks.push_back("pairs|0|0");
    run_tasks(tasks, [&](Ctx& c, const std::string& task) {
        auto f     = mc::split(task, '|');
        unsigned a = std::stoul(f[1]), b = std::stoul(f[2]);
        if (f[0] == "seq")
        {
            if (b == KINDS)
            {
                check_seq(c, {a});
                return;
            }
            check_seq(c, {a, b});
            for (unsigned i = 0; i < KINDS; ++i)
                // Long ones only in thorough
                if (args.thorough || ((a == BIG) + (b == BIG) + (i == BIG) == 0 && (a == 7) + (b == 7) + (i == 7) < 2))
                    check_seq(c, {a, b, i});
        }
        else if (f[0] == "group")
            check_groups(c, a, b);
        else if (f[0] == "ops")
        {
            std::vector<unsigned> seq{a};
            check_ops(c, ops, seq, args.thorough ? 5 : 4);
        }
        else
            check_pairs(c, ops);
        c.sample(task);
    });
}
mc::Register r20("C20", c20);

} // namespace
