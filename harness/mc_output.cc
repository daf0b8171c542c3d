// What arki-query writes: all combinations of output options, queries, kinds
// of data sources and of destinations, read back and compared with the data.
#include "common_ds.h"
#include <algorithm>
#include <arki/core/binary.h>
#include <arki/core/file.h>
#include <arki/data.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/metadata/reader.h>
#include <arki/metadata/sort.h>
#include <arki/python/cmdline/processor.h>
#include <arki/python/dataset/progress.h>
#include <arki/query.h>
#include <arki/query/progress.h>
#include <arki/runtime.h>
#include <arki/stream.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/summary.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <filesystem>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

// No Python interpreter here: a progress that does nothing
namespace arki::python::dataset {
PythonProgress::PythonProgress(PyObject*) {}
PythonProgress::~PythonProgress() {}
void PythonProgress::start(size_t c, size_t b) { arki::query::Progress::start(c, b); }
void PythonProgress::update(size_t, size_t) {}
void PythonProgress::done() {}
} // namespace arki::python::dataset

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;
using arki::python::cmdline::ProcessorMaker;

namespace {

std::vector<Msg> contents(DataFormat format)
{
    std::vector<Msg> res;
    unsigned n = 0;
    for (auto t : {"2020-01-01T00:00:00Z", "2020-01-01T12:00:00Z", "2020-01-02T00:00:00Z", "2020-01-31T23:59:59Z"})
        for (unsigned p : {1, 2})
        {
            Msg m;
            m.format = format;
            m.t      = t;
            m.p      = p;
            m.a      = 1 + n % 3;
            m.l      = format == DataFormat::VM2 ? 0 : (n % 2) * 10;
            if (format != DataFormat::VM2)
                m.fill = std::string(1 + n * 5, 'a' + n);
            res.push_back(m);
            ++n;
        }
    // One that is not in order
    std::swap(res[1], res[4]);
    return res;
}

struct Query
{
    std::string expr;
    std::function<bool(const Msg&)> match;
};

std::vector<Query> queries(DataFormat format)
{
    return {{"", [](const Msg&) { return true; }},
            {"reftime:>=2020-01-01 12:00:00,<=2020-01-02", [](const Msg& m) { return m.t >= "2020-01-01T12:00:00Z" && m.t <= "2020-01-02T23:59:59Z"; }},
            {format == DataFormat::VM2 ? "product:VM2,2" : "product:GRIB1,200,140,2", [](const Msg& m) { return m.p == 2; }},
            {"reftime:=2030", [](const Msg&) { return false; }}};
}

struct Source
{
    std::vector<std::shared_ptr<World>> worlds;
    std::vector<std::shared_ptr<dataset::Dataset>> dss;
    std::vector<std::shared_ptr<dataset::Reader>> readers;
    std::vector<std::vector<Msg>> msgs; // of each one, in order
    DataFormat format = DataFormat::GRIB;
    bool sorted       = false; // by reference time
    bool inlined      = false;
    std::shared_ptr<dataset::Session> session = std::make_shared<dataset::Session>(false);
};

void import(World& w, const std::vector<Msg>& msgs)
{
    auto o = dataset::SessionTime::local_override(now());
    for (auto& m : msgs)
    {
        metadata::InboundBatch batch;
        batch.add(m.inlined());
        dataset::AcquireConfig cfg;
        auto wr = w.writer();
        wr->acquire_batch(batch, cfg);
        wr->flush();
        if (batch[0]->result != metadata::Inbound::Result::OK)
            throw mc::Fail("import", "cannot import " + m.id());
    }
}

DataFormat format_named(const std::string& s) { return s == "vm2" ? DataFormat::VM2 : s == "bufr" ? DataFormat::BUFR : DataFormat::GRIB; }

// Make a source from its description: KIND/FORMAT[/NAME]
void add_source(Source& s, const std::string& root, const std::string& desc)
{
    auto args    = split(desc, '/');
    s.format     = format_named(args[1]);
    auto msgs    = contents(s.format);
    unsigned num = s.readers.size();
    std::string dir = root + "/s" + std::to_string(num);
    fs::create_directories(dir);
    if (num)
    {
        // Something else in the second
        for (auto& m : msgs)
            m.a += 2;
        msgs.resize(5);
    }
    if (args[0] == "iseg" || args[0] == "simple")
    {
        auto conf = Conf::parse("type=" + args[0] + ";fmt=" + args[1] + ";unique=reftime,product,area;step=daily" + (args.size() > 2 ? ";" + args[2] : ""));
        s.worlds.push_back(std::make_shared<World>(conf, dir));
        import(*s.worlds.back(), msgs);
        if (args.size() > 3)
            mc::ds::apply(*s.worlds.back(), args[3]);
        std::stable_sort(msgs.begin(), msgs.end(), [](auto& a, auto& b) { return a.t < b.t; });
        s.readers.push_back(s.worlds.back()->reader());
    }
    else
    {
        std::string path = dir + "/" + args[2];
        std::string all;
        std::string base = path + ".src";
        for (auto& m : msgs)
        {
            if (args[0] == "data")
                all += m.bytes() + (m.format == DataFormat::VM2 ? "\n" : "");
            else
            {
                auto md = m.inlined();
                if (args[0] == "blob" || args[0] == "yaml")
                {
                    auto ofs = fs::exists(base) ? fs::file_size(base) : 0;
                    spew(base, (ofs ? slurp(base) : "") + m.bytes() + (m.format == DataFormat::VM2 ? "\n" : ""));
                    md->set_source(types::Source::createBlobUnlocked(m.format, dir, args[2] + ".src", ofs, m.bytes().size()));
                }
                else
                    s.inlined = true;
                if (args[0] == "yaml")
                    all += md->to_yaml() + "\n";
                else
                {
                    std::vector<uint8_t> buf;
                    auto out = StreamOutput::create(buf);
                    md->write(*out);
                    all += std::string(buf.begin(), buf.end());
                }
            }
        }
        spew(path, all);
        auto cfg = s.session->read_config(args.size() > 3 ? args[3] + ":" + path : path);
        if (cfg->value("path") != fs::canonical(path).native())
            throw mc::Fail("file-config", "the configuration for " + path + " has path " + cfg->value("path"));
        s.dss.push_back(s.session->dataset(*cfg));
        s.readers.push_back(s.dss.back()->create_reader());
    }
    s.msgs.push_back(msgs);
}

// Something found in the output
struct Found
{
    std::string items, data, source;
};

Found found(Metadata& md)
{
    Found f;
    f.items = items(md);
    if (md.has_source())
    {
        f.source = md.source().style() == types::Source::Style::INLINE ? "inline" : md.source().style() == types::Source::Style::BLOB ? "blob" : "url";
        if (md.has_source_blob())
        {
            const auto& b = md.sourceBlob();
            // Read it from the file, without the library
            auto path = b.absolutePathname();
            if (fs::is_directory(path))
            {
                char name[64];
                snprintf(name, 64, "/%06zu.%s", (size_t)b.offset, format_name(b.format).c_str());
                f.data = slurp(path.native() + name).substr(0, b.size);
            }
            else
                f.data = slurp(path).substr(b.offset, b.size);
            if (!path.is_absolute())
                f.source = "relative";
        }
        else if (f.source == "inline")
        {
            auto d = md.get_data().read();
            f.data = std::string(d.begin(), d.end());
        }
        else
            f.data = md.source().to_string();
    }
    return f;
}

std::vector<Found> read_binary(const std::string& out)
{
    std::vector<Found> res;
    std::string path = scratch() + "/out.read";
    spew(path, out);
    core::File f(path, O_RDONLY);
    metadata::BinaryReader r(f, "/");
    r.read_all([&](std::shared_ptr<Metadata> md) {
        res.push_back(found(*md));
        return true;
    });
    unlink(path.c_str());
    return res;
}

// Take away comments in yaml
std::string no_comments(const std::string& s)
{
    std::string res;
    for (const auto& l : split(s, '\n'))
        res += l.substr(0, l.find("\t# ")) + "\n";
    if (!res.empty())
        res.pop_back();
    return res;
}

std::vector<Found> read_yaml(const std::string& out)
{
    std::vector<Found> res;
    std::string path = scratch() + "/out.read";
    spew(path, no_comments(out));
    core::File f(path, O_RDONLY);
    metadata::YamlReader r(f, "/");
    r.read_all([&](std::shared_ptr<Metadata> md) {
        res.push_back(found(*md));
        return true;
    });
    unlink(path.c_str());
    return res;
}

template <typename F> void each_json(const std::string& out, F f)
{
    // Split at the top level
    int depth = 0;
    bool str  = false;
    size_t begin = 0;
    for (size_t i = 0; i < out.size(); ++i)
    {
        if (str)
        {
            if (out[i] == '\\')
                ++i;
            else if (out[i] == '"')
                str = false;
            continue;
        }
        if (out[i] == '"')
            str = true;
        else if (out[i] == '{' || out[i] == '[')
        {
            if (!depth++)
                begin = i;
        }
        else if (out[i] == '}' || out[i] == ']')
        {
            if (!--depth)
            {
                std::string one = out.substr(begin, i + 1 - begin);
                structured::Memory mem;
                auto in = core::BufferedReader::from_string(one);
                structured::JSON::parse(*in, mem);
                // Data can follow
                i += f(mem.root(), out.substr(i + 1));
            }
        }
        else if (!depth && !isspace((unsigned char)out[i]))
            throw mc::Fail("json", "the output has something that is not JSON: " + quote(out.substr(i, 60)));
    }
    if (depth)
        throw mc::Fail("json", "the output is not complete JSON");
}

std::vector<Found> read_json(const std::string& out)
{
    std::vector<Found> res;
    each_json(out, [&](const structured::Reader& r, const std::string& rest) -> size_t {
        auto md = Metadata::read_structure(structured::keys_json, r);
        if (md->source().style() != types::Source::Style::INLINE)
        {
            res.push_back(found(*md));
            return 0;
        }
        Found f;
        f.items  = items(*md);
        f.source = "inline";
        f.data   = rest.substr(1, md->data_size()); // after a newline
        res.push_back(f);
        return 1 + md->data_size();
    });
    return res;
}

// How output is collected
struct Output
{
    std::string how;
    std::string path;
    std::vector<uint8_t> buf;
    std::shared_ptr<StreamOutput> out;
    std::shared_ptr<core::File> file;
    int fds[2] = {-1, -1};
    std::thread reader;
    std::string piped;

    Output(const std::string& how) : how(how), path(scratch() + "/out")
    {
        if (how == "memory")
            out = StreamOutput::create(buf);
        else if (how == "file")
        {
            file = std::make_shared<core::File>(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
            out  = StreamOutput::create(file);
        }
        else
        {
            if (pipe2(fds, O_CLOEXEC))
                throw std::runtime_error("pipe");
            reader = std::thread([this] {
                char b[4096];
                ssize_t n;
                while ((n = read(fds[0], b, sizeof(b))) > 0)
                    piped.append(b, n);
            });
            out    = StreamOutput::create(std::make_shared<core::NamedFileDescriptor>(fds[1], "pipe"));
        }
    }
    std::string result()
    {
        out.reset();
        if (how == "memory")
            return std::string(buf.begin(), buf.end());
        if (how == "file")
        {
            file->close();
            auto res = slurp(path);
            unlink(path.c_str());
            return res;
        }
        close(fds[1]);
        fds[1] = -1;
        reader.join();
        close(fds[0]);
        return piped;
    }
    ~Output()
    {
        if (fds[1] != -1)
            close(fds[1]);
        if (reader.joinable())
        {
            reader.join();
            close(fds[0]);
        }
    }
};

const unsigned OPTS = 4; // yaml, json, annotate, inline or restrict

std::string opt_str(unsigned o, bool summary)
{
    std::string res;
    if (o & 1)
        res += " --yaml";
    if (o & 2)
        res += " --json";
    if (o & 4)
        res += " --annotate";
    if (o & 8)
        res += summary ? " --summary-restrict" : " --inline";
    return res;
}

bool before(const std::string& sort, const Msg& a, const Msg& b)
{
    if (sort == "reftime")
        return a.t < b.t;
    if (sort == "-reftime")
        return a.t > b.t;
    // product,-reftime
    return a.p < b.p || (a.p == b.p && a.t > b.t);
}

// What items of each type there are
std::map<std::string, std::set<std::string>> expected_short(const std::vector<Msg>& msgs)
{
    std::map<std::string, std::set<std::string>> res;
    for (const auto& m : msgs)
    {
        auto md = m.meta();
        for (auto code : {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA, TYPE_PRODDEF, TYPE_RUN, TYPE_QUANTITY, TYPE_TASK})
            if (auto t = md->get(code))
            {
                auto name = types::formatCode(code);
                for (auto& ch : name)
                    ch = tolower(ch);
                res[name].insert(t->to_string());
            }
    }
    return res;
}

void check_source(Ctx& c, const std::string& task)
{
    // task is out|MODE|DEST|SORT|source+source
    auto args = split(task, '|');
    mc::ds::init();
    arki::init();
    std::string root = fresh_scratch();
    fs::create_directories(root + "/bin");
    spew(root + "/bin/pass", "#!/bin/sh\n[ \"$1\" = thru ] || exit 1\nexec cat\n");
    chmod((root + "/bin/pass").c_str(), 0755);
    Config::get().dir_postproc.clear();
    Config::get().dir_postproc.push_back(root + "/bin");
    Source s;
    for (const auto& d : split(args[4], '+'))
        add_source(s, root, d);
    const std::string &mode = args[1], &dest = args[2], &sort = args[3];

    for (const auto& q : queries(s.format))
        for (unsigned o = 0; o < (1u << OPTS); ++o)
        {
            bool yaml = o & 1, json = o & 2, annotate = o & 4, extra = o & 8;
            if ((mode == "data" || mode == "post" || mode.substr(0, 7) == "archive") && o)
                continue;
            if (mode == "short" && extra)
                continue;
            if (mode == "server" && o > 3)
                continue;
            c.eval(), c.states();
            c.current(task + " '" + q.expr + "'" + opt_str(o, mode == "summary"));
            // What is expected
            std::vector<Msg> all;
            for (const auto& l : s.msgs)
            {
                std::vector<Msg> one;
                for (const auto& m : l)
                    if (q.match(m))
                        one.push_back(m);
                if (!sort.empty())
                    std::stable_sort(one.begin(), one.end(), [&](auto& a, auto& b) { return before(sort, a, b); });
                all.insert(all.end(), one.begin(), one.end());
            }
            Output out(dest);
            ProcessorMaker pm;
            pm.yaml     = yaml;
            pm.json     = json;
            pm.annotate = annotate;
            pm.sort     = sort;
            pm.progress = std::make_shared<arki::query::Progress>();
            auto matcher = matcher::Parser().parse(q.expr);
            if (mode == "data")
                pm.data_only = true;
            else if (mode == "post")
                pm.postprocess = "pass thru";
            else if (mode == "summary")
            {
                pm.summary = true;
                if (extra)
                    pm.summary_restrict = "product,area";
            }
            else if (mode == "short")
                pm.summary_short = true;
            else if (mode == "server")
                pm.server_side = true;
            else
                pm.data_inline = extra;
            std::unique_ptr<arki::python::cmdline::DatasetProcessor> proc;
            if (mode.substr(0, 7) == "archive")
                proc = ProcessorMaker::make_libarchive(matcher, out.out, mode.substr(8), pm.progress);
            else
                proc = pm.make(matcher, out.out);
            for (auto& r : s.readers)
                proc->process(*r, r->name());
            proc->end();
            proc.reset();
            std::string res = out.result();
            c.distinct(res);

            if (mode == "data" || mode == "post")
            {
                std::string exp;
                for (const auto& m : all)
                    exp += m.bytes() + (m.format == DataFormat::VM2 ? "\n" : "");
                if (mode == "post")
                {
                    // The filter gets metadata with data inline
                    std::string got;
                    for (auto& f : read_binary(res))
                        got += f.data + (s.format == DataFormat::VM2 ? "\n" : "");
                    res = got;
                }
                if (res != exp)
                    c.fail("data", "data is " + quote(res.substr(0, 300)) + " instead of " + quote(exp.substr(0, 300)));
                continue;
            }
            if (mode.substr(0, 7) == "archive")
            {
                // Contents of plain files, in order, from the tar format
                std::vector<std::string> files;
                size_t pos = 0;
                while (pos + 512 <= res.size() && res[pos])
                {
                    size_t size = std::stoul(res.substr(pos + 124, 11), nullptr, 8);
                    char type   = res[pos + 156];
                    if (type == '0' || type == 0)
                        files.push_back(res.substr(pos + 512, size));
                    pos += 512 + (size + 511) / 512 * 512;
                }
                // The last is a description of the others
                if (!files.empty())
                    files.pop_back();
                std::vector<std::string> exp;
                for (const auto& m : all)
                    exp.push_back(m.bytes());
                if (files != exp)
                    c.fail("archive", "the archive has " + std::to_string(files.size()) + " files, instead of those of " + std::to_string(exp.size()) + " elements");
                continue;
            }
            if (mode == "summary")
            {
                Summary got;
                if (json)
                    each_json(res, [&](const structured::Reader& r, const std::string&) -> size_t {
                        Summary one;
                        one.read(structured::keys_json, r);
                        got.add(one);
                        return 0;
                    });
                else if (yaml || annotate)
                {
                    auto text = no_comments(res);
                    auto r    = core::LineReader::from_chars(text.data(), text.size());
                    got.readYaml(*r, "test");
                }
                else
                {
                    auto f = scratch() + "/out.read";
                    spew(f, res);
                    got.read_file(f);
                    unlink(f.c_str());
                }
                if (annotate && !json && !all.empty() && res.find("\t# ") == std::string::npos)
                    c.fail("annotate", "there are no annotations");
                Summary exp;
                for (const auto& m : all)
                {
                    auto md = m.inlined();
                    if (extra)
                    {
                        auto r = std::make_shared<Metadata>();
                        for (auto code : {TYPE_PRODUCT, TYPE_AREA, TYPE_REFTIME})
                            if (auto t = md->get(code))
                                r->set(*t);
                        r->set_source(std::unique_ptr<types::Source>(md->source().clone()));
                        exp.add(*r);
                    }
                    else
                        exp.add(*md);
                }
                auto g = summarise(got), e = summarise(exp);
                if (!(g == e))
                    c.fail("summary", "the summary is " + str(g) + " instead of " + str(e));
                if (!extra && !(e == expected_summary(all)))
                    c.fail("summary", "summaries do not add up");
                continue;
            }
            if (mode == "short")
            {
                auto exp = expected_short(all);
                size_t size = 0;
                std::string first, last;
                for (const auto& m : all)
                {
                    size += m.bytes().size();
                    if (first.empty() || m.t < first)
                        first = m.t;
                    if (m.t > last)
                        last = m.t;
                }
                std::map<std::string, std::set<std::string>> got;
                if (json)
                {
                    // Only count items
                    std::map<std::string, size_t> g, e;
                    each_json(res, [&](const structured::Reader& r, const std::string&) -> size_t {
                        r.dict_sub("items", "items", [&](const structured::Reader& items) {
                            for (const char* name : {"origin", "product", "level", "timerange", "area", "proddef", "run", "quantity", "task", "value", "reftime"})
                                if (items.dict_has_key(name, structured::NodeType::LIST))
                                    items.dict_sub(name, name, [&](const structured::Reader& l) { g[name] = l.list_size("list"); });
                            items.dict_sub("summarystats", "stats", [&](const structured::Reader& st) {
                                g["count"] = st.dict_as_int("c", "count");
                                g["size"]  = st.dict_as_int("s", "size");
                            });
                        });
                        return 0;
                    });
                    for (const auto& i : exp)
                        e[i.first] = i.second.size();
                    e["count"] = all.size();
                    e["size"]  = size;
                    if (g != e)
                    {
                        std::string d;
                        for (auto& i : g)
                            d += " " + i.first + "=" + std::to_string(i.second);
                        c.fail("short-json", "the short summary has" + d + ": " + quote(res.substr(0, 300)));
                    }
                    continue;
                }
                std::string section, stats;
                bool in_items = false;
                for (auto l : split(no_comments(res), '\n'))
                {
                    if (l == "Items:")
                        in_items = true;
                    else if (!in_items && l.substr(0, 2) == "  ")
                        stats += l.substr(2) + "\n";
                    else if (l.substr(0, 4) == "    ")
                        got[section].insert(l.substr(4));
                    else if (in_items && l.substr(0, 2) == "  ")
                    {
                        section = l.substr(2, l.size() - 3);
                        for (auto& ch : section)
                            ch = tolower(ch);
                    }
                }
                if (got != exp)
                    c.fail("short", "the short summary is " + quote(res));
                std::string est = "Size: " + std::to_string(size) + "\nCount: " + std::to_string(all.size()) + "\n";
                if (!all.empty())
                    est += "Reftime: " + first + " to " + last + "\n";
                if (stats.substr(0, est.size()) != est)
                    c.fail("short-stats", "statistics are " + quote(stats) + " instead of " + quote(est));
                if (annotate && !all.empty() && res.find("\t# ") == std::string::npos)
                    c.fail("annotate", "there are no annotations");
                continue;
            }
            // Metadata
            std::vector<Found> got;
            if (json)
            {
                got = read_json(res);
            }
            else if (yaml || annotate)
            {
                if (extra || s.inlined)
                    continue;
                got = read_yaml(res);
                if (annotate && !all.empty() && res.find("\t# ") == std::string::npos)
                    c.fail("annotate", "there are no annotations");
                if (!annotate && res.find("\t# ") != std::string::npos)
                    c.fail("annotate", "there are annotations that were not asked for");
            }
            else
                got = read_binary(res);
            std::string src = extra || (s.inlined) ? "inline" : "blob";
            for (size_t i = 0; i < std::max(got.size(), all.size()); ++i)
            {
                if (i >= got.size())
                {
                    c.fail("metadata-missing", "there are " + std::to_string(got.size()) + " elements instead of " + std::to_string(all.size()));
                    break;
                }
                if (i >= all.size())
                {
                    c.fail("metadata-extra", "there are " + std::to_string(got.size()) + " elements instead of " + std::to_string(all.size()));
                    break;
                }
                if (got[i].items != items(*all[i].meta()))
                {
                    c.fail("metadata-items", "element " + std::to_string(i) + " is " + quote(got[i].items) + " instead of " + quote(items(*all[i].meta())));
                    break;
                }
                if (got[i].source != src)
                {
                    c.fail("metadata-source", "the source is " + got[i].source + " instead of " + src);
                    break;
                }
                if (got[i].data != all[i].bytes())
                {
                    c.fail("metadata-data", "the source of element " + std::to_string(i) + " leads to " + quote(got[i].data) + " instead of " + quote(all[i].bytes()));
                    break;
                }
            }
        }
}

mc::Register c28("C28", [] {
    mc::ds::init();
    arki::init();
    bool th = mc::args.thorough;
    std::vector<std::string> sources;
    for (std::string f : {"grib", "bufr", "vm2"})
    {
        sources.push_back("iseg/" + f);
        sources.push_back("simple/" + f);
        sources.push_back("data/" + f + "/test." + f);
        sources.push_back("arkimet/" + f + "/test.arkimet");
        sources.push_back("blob/" + f + "/test.metadata");
        sources.push_back("yaml/" + f + "/test.yaml");
        sources.push_back("data/" + f + "/noext/" + f);
        sources.push_back("iseg/" + f + "+simple/" + f);
        sources.push_back("arkimet/" + f + "/a.arkimet+arkimet/" + f + "/b.arkimet");
    }
    sources.push_back("data/grib/test.grib1");
    sources.push_back("data/grib/test.GRIB2");
    sources.push_back("blob/grib/noext/arkimet");
    sources.push_back("yaml/grib/noext/yaml");
    sources.push_back("iseg/grib//zip");
    sources.push_back("iseg/grib//tar");
    sources.push_back("simple/grib/dirs");
    sources.push_back("iseg/vm2/smallfiles");
    sources.push_back("data/bufr/test.bufr+iseg/bufr");
    std::vector<std::string> tasks;
    for (auto& s : sources)
        for (auto mode : {"md", "data", "summary", "short", "server", "post", "archive:tar"})
            for (auto dest : {"memory", "file", "pipe"})
                for (std::string sort : {"", "reftime", "-reftime", "product,-reftime"})
                {
                    // Data on disk is sorted by segment
                    if (!sort.empty() && s.substr(0, 4) != "data" && s.substr(0, 4) != "arki" && s.substr(0, 4) != "blob" && s.substr(0, 4) != "yaml")
                        continue;
                    if (!sort.empty() && (s.find('+') != std::string::npos && s.find("iseg") != std::string::npos))
                        continue;
                    std::string m = mode;
                    if (!sort.empty() && (m == "summary" || m == "short" || m == "archive:tar"))
                        continue;
                    if (!th && std::string(dest) != "memory" && !sort.empty())
                        continue;
                    if (m == "post" && std::string(dest) == "memory" && false)
                        continue;
                    tasks.push_back(mc::cat("out|", mode, "|", dest, "|", sort, "|", s));
                }
    run_tasks(tasks, check_source, "out|");
});

} // namespace
