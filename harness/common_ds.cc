#include "common_ds.h"
#include <algorithm>
#include <arki/dataset/archive.h>
#include <arki/dataset/local.h>
#include <arki/dataset/segmented.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/matcher.h>
#include <arki/metadata.h>
#include <arki/metadata/data.h>
#include <arki/metadata/sort.h>
#include <arki/nag.h>
#include <arki/query.h>
#include <arki/segment/session.h>
#include <arki/stream.h>
#include <arki/summary.h>
#include <arki/summary/stats.h>
#include <arki/types/reftime.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <fcntl.h>
#include <sqlite3.h>
#include <sys/stat.h>

namespace fs = std::filesystem;
using namespace arki;

namespace mc::ds {

/*
 * Configuration
 */

static std::string fmt_name(DataFormat f)
{
    switch (f)
    {
        case DataFormat::GRIB:   return "grib";
        case DataFormat::BUFR:   return "bufr";
        case DataFormat::VM2:    return "vm2";
        case DataFormat::ODIMH5: return "odimh5";
        default:                 return "?";
    }
}

Conf Conf::parse(const std::string& s)
{
    Conf c;
    for (const auto& f : mc::split(s, ';'))
    {
        if (f.empty())
            continue;
        auto p        = f.find('=');
        std::string k = f.substr(0, p), v = p == std::string::npos ? "" : f.substr(p + 1);
        if (k == "type") c.type = v;
        else if (k == "fmt")
            c.format = v == "grib" ? DataFormat::GRIB : v == "bufr" ? DataFormat::BUFR : v == "vm2" ? DataFormat::VM2 : DataFormat::ODIMH5;
        else if (k == "step") c.step = v;
        else if (k == "unique") c.unique = v;
        else if (k == "index") c.index = v;
        else if (k == "replace") c.replace = v;
        else if (k == "smallfiles") c.smallfiles = true;
        else if (k == "dirs") c.dirs = true;
        else if (k == "nolock") c.nolock = true;
        else if (k == "eatmydata") c.eatmydata = true;
        else if (k == "archive") c.archive_age = std::stoi(v);
        else if (k == "delete") c.delete_age = std::stoi(v);
        else if (k == "gz") c.gz = std::stoi(v);
        else if (k == "aged") c.aged = true;
        else throw std::runtime_error("mc: bad conf " + s);
    }
    return c;
}

std::string Conf::str() const
{
    std::stringstream s;
    s << "type=" << type << ";fmt=" << fmt_name(format) << ";step=" << step;
    if (!unique.empty()) s << ";unique=" << unique;
    if (!index.empty()) s << ";index=" << index;
    if (!replace.empty()) s << ";replace=" << replace;
    if (smallfiles) s << ";smallfiles";
    if (dirs) s << ";dirs";
    if (nolock) s << ";nolock";
    if (eatmydata) s << ";eatmydata";
    if (archive_age >= 0) s << ";archive=" << archive_age;
    if (delete_age >= 0) s << ";delete=" << delete_age;
    if (gz >= 0) s << ";gz=" << gz;
    if (aged) s << ";aged";
    return s.str();
}

std::shared_ptr<core::cfg::Section> Conf::section(const std::string& root, const std::string& name) const
{
    auto c = std::make_shared<core::cfg::Section>();
    c->set("name", name);
    c->set("path", root);
    c->set("type", type);
    c->set("step", step);
    if (type == "iseg")
    {
        c->set("format", fmt_name(format));
        if (!unique.empty()) c->set("unique", unique);
        if (!index.empty()) c->set("index", index);
    }
    if (!replace.empty()) c->set("replace", replace);
    if (smallfiles) c->set("smallfiles", "yes");
    if (nolock) c->set("locking", "no");
    if (eatmydata) c->set("eatmydata", "yes");
    if (archive_age >= 0) c->set("archive age", std::to_string(archive_age));
    if (delete_age >= 0) c->set("delete age", std::to_string(delete_age));
    if (gz >= 0) c->set("gz group size", std::to_string(gz));
    return c;
}

std::string Conf::key(const Msg& m) const
{
    std::stringstream s;
    s << m.t;
    for (auto n : mc::split(unique, ','))
    {
        while (!n.empty() && n[0] == ' ')
            n = n.substr(1);
        if (n == "product") s << ";p" << m.p;
        if (n == "area") s << ";a" << m.a;
        if (n == "level" && format != DataFormat::VM2) s << ";l" << m.l;
    }
    return s.str();
}

std::string Conf::segment(const Msg& m) const
{
    int ye = std::stoi(m.t.substr(0, 4)), mo = std::stoi(m.t.substr(5, 2)), da = std::stoi(m.t.substr(8, 2));
    char b[64];
    if (step == "yearly")
        snprintf(b, sizeof(b), "%02d/%04d", ye / 100, ye);
    else if (step == "monthly")
        snprintf(b, sizeof(b), "%04d/%02d", ye, mo);
    else if (step == "weekly")
        snprintf(b, sizeof(b), "%04d/%02d-%d", ye, mo, (da - 1) / 7 + 1);
    else if (step == "biweekly")
        snprintf(b, sizeof(b), "%04d/%02d-%d", ye, mo, da > 15 ? 2 : 1);
    else
        snprintf(b, sizeof(b), "%04d/%02d-%02d", ye, mo, da);
    return std::string(b) + "." + fmt_name(m.format);
}

Msg msg(const Conf& conf, unsigned i)
{
    Msg m;
    m.format = conf.format;
    m.fill   = std::string(1 + i % 5, '0' + i % 10);
    switch (i)
    {
        case 0: break;
        case 1: m.t = "2020-01-01T12:00:00Z"; m.p = 2; break;
        case 2: m.t = "2020-01-02T06:00:00Z"; break;
        case 3: m.fill = "33333333"; break;
        case 4: m.a = 2; break;
        case 5: m.t = "2020-02-15T00:00:00Z"; m.p = 3; m.l = 10; break;
        case 6: m.t = "2019-12-31T23:59:59Z"; break;
        case 7:
            m.t      = "2020-01-01T06:00:00Z";
            m.p      = 7;
            m.format = conf.format == DataFormat::GRIB ? DataFormat::BUFR : DataFormat::GRIB;
            break;
        case 8: m.u = 0; m.fill = "80"; break;
        case 9: m.u = 1; m.fill = "9191"; break;
        case 10: m.u = 2; m.fill = "101010"; break;
        case 11:
            m.t    = "2020-01-01T18:00:00Z";
            m.p    = 2;
            m.a    = 2;
            m.fill = std::string(conf.format == DataFormat::VM2 ? 700 : 9000, '7');
            break;
        case 12: m.l = 5; m.fill = "12"; break;
        case 13: m.t = "2020-01-31T23:59:59Z"; m.p = 5; break;
        case 14: m.t = "2020-01-08T00:00:00Z"; m.p = 6; break;
        case 15: m.t = "2020-01-15T12:30:30Z"; m.p = 8; break;
        case 16: m.t = "2020-01-01T23:59:59Z"; m.p = 4; break;
        case 17: m.t = "2020-01-02T00:00:00Z"; m.p = 4; break;
        // Same items as 0, but for one that is not in unique=reftime,product,area
        case 18: m.t = "2020-01-01T06:00:00Z"; m.l = 5; m.fill = "1818"; break;
        default: throw std::runtime_error("mc: no such message");
    }
    return m;
}

static time_t the_now = 1579478400; // 2020-01-20
time_t now() { return the_now; }
void set_now(const std::string& t)
{
    struct tm tm;
    memset(&tm, 0, sizeof(tm));
    sscanf(t.c_str(), "%d-%d-%dT%d:%d:%d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec);
    tm.tm_year -= 1900;
    tm.tm_mon -= 1;
    the_now = timegm(&tm);
}

void init()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    install_scanners();
    if (!mc::args.verbose)
    {
        auto h = new nag::NullHandler;
        h->install();
    }
}

bool Recorder::has(const std::string& what) const
{
    for (const auto& l : log)
        if (l.compare(0, what.size() + 1, what + "|") == 0)
            return true;
    return false;
}
std::vector<std::string> Recorder::actions() const
{
    std::vector<std::string> res;
    for (const auto& l : log)
        if (l.compare(0, 7, "report|") != 0)
            res.push_back(l);
    return res;
}

World::World(const Conf& conf, const std::string& root) : conf(conf), root(root)
{
    init();
    session = std::make_shared<dataset::Session>(false);
    ds      = session->dataset(*conf.section(root));
    if (conf.dirs)
    {
        auto s = std::dynamic_pointer_cast<dataset::segmented::Dataset>(ds);
        s->segment_session->default_file_segment = segment::DefaultFileSegment::SEGMENT_DIR;
    }
}

/*
 * Model
 */

std::vector<Msg> Model::all() const
{
    std::vector<Msg> res;
    for (const auto& m : {archived, online})
        for (const auto& s : m)
            for (const auto& x : s.second)
                res.push_back(x);
    return res;
}

std::string describe(const std::vector<Msg>& msgs)
{
    std::vector<std::string> v;
    for (const auto& m : msgs)
        v.push_back(m.id());
    std::sort(v.begin(), v.end());
    std::string res;
    for (auto& s : v)
        res += (s.size() > 120 ? s.substr(0, 60) + "..." + std::to_string(s.size()) : s) + "\n";
    return res;
}

std::string Model::str() const
{
    std::string res;
    for (const auto& s : online)
        if (!s.second.empty())
            res += "O " + s.first + "\n" + describe(s.second);
    for (const auto& s : archived)
        if (!s.second.empty())
            res += "A " + s.first + "\n" + describe(s.second);
    for (const auto& s : unpacked)
        res += "U " + s + "\n";
    for (const auto& s : unpacked_archived)
        res += "UA " + s + "\n";
    return res;
}

static time_t to_t(const std::string& t)
{
    struct tm tm;
    memset(&tm, 0, sizeof(tm));
    sscanf(t.c_str(), "%d-%d-%dT%d:%d:%d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec);
    tm.tm_year -= 1900;
    tm.tm_mon -= 1;
    return timegm(&tm);
}

static time_t threshold(int age) { return now() / 86400 * 86400 - (time_t)age * 86400; }

char Model::import(const Conf& conf, const Msg& m, const std::string& strategy, DataFormat first_format)
{
    if (conf.type == "iseg" && first_format != conf.format)
        return 'E';
    if (m.format != first_format)
        return 'E';
    if (conf.delete_age >= 0 && to_t(m.t) < threshold(conf.delete_age))
        return 'X';
    if (conf.archive_age >= 0 && to_t(m.t) < threshold(conf.archive_age))
        return 'E';
    auto& seg = online[conf.segment(m)];
    if (conf.type != "iseg")
    {
        seg.push_back(m);
        return 'K';
    }
    std::string st = strategy;
    if (st.empty() || st == "default")
        st = conf.replace == "yes" || conf.replace == "true" || conf.replace == "always" ? "always" : conf.replace == "USN" || conf.replace == "usn" ? "usn" : "never";
    auto old = std::find_if(seg.begin(), seg.end(), [&](const Msg& o) { return conf.key(o) == conf.key(m); });
    if (old == seg.end())
    {
        seg.push_back(m);
        return 'K';
    }
    if (st == "never")
        return 'D';
    if (st == "always")
    {
        *old = m;
        return 'K';
    }
    // Update only if the new one has an update sequence number and it is not
    // lower than that of the old one
    int nu = m.format == DataFormat::BUFR ? m.u : -1;
    int ou = old->format == DataFormat::BUFR ? old->u : -1;
    if (nu < 0)
        return 'D';
    if (ou < 0)
        return 'E';
    if (ou > nu)
        return 'D';
    *old = m;
    return 'K';
}

std::vector<unsigned> op_msgs(const std::string& op)
{
    std::vector<unsigned> res;
    size_t i = 1;
    while (i < op.size() && op[i] != ':')
    {
        if (isdigit((unsigned char)op[i]))
        {
            res.push_back(std::stoul(op.substr(i)));
            while (i < op.size() && isdigit((unsigned char)op[i]))
                ++i;
        }
        else
            ++i;
    }
    return res;
}

// Split i0,1/2:always in batches and strategy
static std::vector<std::vector<unsigned>> op_batches(const std::string& op, std::string& strategy)
{
    std::string body = op.substr(1);
    auto p           = body.find(':');
    if (p != std::string::npos)
    {
        strategy = body.substr(p + 1);
        body     = body.substr(0, p);
    }
    std::vector<std::vector<unsigned>> res;
    for (const auto& b : mc::split(body, '/'))
    {
        res.emplace_back();
        for (const auto& n : mc::split(b, ','))
            res.back().push_back(std::stoul(n));
    }
    return res;
}

// Apply to the model an operation that succeeds. False if it is not known what
// happens
bool Model::apply(const Conf& conf, const std::string& op)
{
    if (op[0] == 'i' && op.size() > 1 && isdigit((unsigned char)op[1]))
    {
        std::string strategy;
        for (const auto& b : op_batches(op, strategy))
        {
            // Items are taken in order of reference time
            std::vector<Msg> ms;
            for (auto i : b)
                ms.push_back(msg(conf, i));
            if (ms.empty())
                continue;
            DataFormat first = ms[0].format;
            std::stable_sort(ms.begin(), ms.end(), [](const Msg& a, const Msg& b) { return a.t < b.t; });
            for (const auto& m : ms)
                import(conf, m, strategy, first);
        }
        return true;
    }
    if (op[0] == 'd' && op.size() > 1 && isdigit((unsigned char)op[1]))
    {
        for (auto i : op_msgs(op))
        {
            auto id = msg(conf, i).id();
            for (auto& s : online)
                for (auto& m : s.second)
                    if (m.id() == id)
                        unpacked.insert(s.first);
            for (auto& s : online)
                s.second.erase(std::remove_if(s.second.begin(), s.second.end(), [&](const Msg& m) { return m.id() == id; }), s.second.end());
        }
        return true;
    }
    if (op == "ra")
    {
        online.clear();
        archived.clear();
        unpacked.clear();
        unpacked_archived.clear();
        return true;
    }
    if (op.compare(0, 4, "arc:") == 0)
    {
        std::string seg = op.substr(4);
        auto& d         = archived[seg];
        for (const auto& m : online[seg])
            d.push_back(m);
        online.erase(seg);
        if (unpacked.erase(seg))
            unpacked_archived.insert(seg);
        return true;
    }
    if (op.compare(0, 4, "una:") == 0)
    {
        std::string seg = op.substr(4);
        auto& d         = online[seg];
        for (const auto& m : archived[seg])
            d.push_back(m);
        archived.erase(seg);
        if (unpacked_archived.erase(seg))
            unpacked.insert(seg);
        return true;
    }
    if (op == "rp")
        unpacked.clear();
    // The others leave contents as they are
    return true;
}

void Model::replay(const Conf& conf, const std::vector<std::string>& ops)
{
    for (const auto& o : ops)
        apply(conf, o);
}

/*
 * Observing
 */

static const TypeCode item_codes[] = {TYPE_ORIGIN, TYPE_PRODUCT, TYPE_LEVEL, TYPE_TIMERANGE, TYPE_AREA, TYPE_PRODDEF, TYPE_BBOX, TYPE_RUN, TYPE_QUANTITY, TYPE_TASK};

std::string items(const Metadata& md)
{
    std::string res;
    if (auto t = md.get(TYPE_REFTIME))
        res += t->to_string() + "|";
    for (auto c : item_codes)
        if (auto t = md.get(c))
            res += std::to_string((int)c) + "=" + t->to_string() + "|";
    return res;
}

static std::string bytes_of(const Metadata& md)
{
    auto& d = const_cast<Metadata&>(md).get_data();
    auto v  = d.read();
    return std::string(v.begin(), v.end());
}

static Got got(const Metadata& md, bool with_data)
{
    Got g;
    g.items = items(md);
    if (auto r = md.get<types::reftime::Position>())
        g.t = r->get_Position().to_iso8601();
    if (md.has_source())
    {
        std::stringstream s;
        s << md.source();
        g.src = s.str();
        if (auto b = md.has_source_blob())
            g.file = (b->basedir / b->filename).native();
    }
    if (with_data)
        g.data = bytes_of(md);
    return g;
}

std::vector<Got> query(dataset::Reader& r, const std::string& q, bool with_data, const std::string& sort)
{
    std::vector<Got> res;
    query::Data dq(r.dataset().session->matcher(q), with_data);
    if (!sort.empty())
        dq.sorter = metadata::sort::Compare::parse(sort);
    bool complete = r.query_data(dq, [&](std::shared_ptr<Metadata> md) {
        res.push_back(got(*md, with_data));
        return true;
    });
    if (!complete)
        throw mc::Fail("query-return", "query of '" + q + "' reports that it was interrupted");
    return res;
}

std::string query_bytes(dataset::Reader& r, const std::string& q, const std::string& sort)
{
    std::vector<uint8_t> out;
    auto s = StreamOutput::create(out);
    query::Bytes bq;
    bq.setData(r.dataset().session->matcher(q));
    if (!sort.empty())
        bq.sorter = metadata::sort::Compare::parse(sort);
    r.query_bytes(bq, *s);
    return std::string(out.begin(), out.end());
}

SumMap summarise(const Summary& s)
{
    struct V : public summary::Visitor
    {
        SumMap res;
        bool operator()(const std::vector<const types::Type*>& md, const summary::Stats& st) override
        {
            std::string k;
            for (auto t : md)
                if (t)
                    k += std::to_string((int)t->type_code()) + "=" + t->to_string() + "|";
            if (res.count(k))
                throw mc::Fail("summary-repeated", "summary has two entries for " + k);
            auto& r = res[k];
            r.count = st.count;
            r.size  = st.size;
            r.begin = st.begin.to_iso8601();
            r.end   = st.end.to_iso8601();
            return true;
        }
    } v;
    s.visit(v);
    return v.res;
}

SumMap expected_summary(const std::vector<Msg>& msgs)
{
    SumMap res;
    for (const auto& m : msgs)
    {
        auto md = m.meta();
        std::string k;
        std::map<int, std::string> by_pos;
        for (auto c : item_codes)
            if (auto t = md->get(c))
                by_pos[summary::Visitor::posForCode(c)] = std::to_string((int)c) + "=" + t->to_string() + "|";
        for (auto& p : by_pos)
            k += p.second;
        auto& r = res[k];
        std::string t = m.t;
        if (!r.count || t < r.begin) r.begin = t;
        if (!r.count || t > r.end) r.end = t;
        ++r.count;
        r.size += m.bytes().size();
    }
    return res;
}

std::string str(const SumMap& s)
{
    std::string res;
    for (auto& i : s)
        res += mc::cat(i.first, " n=", i.second.count, " sz=", i.second.size, " ", i.second.begin, "..", i.second.end, "\n");
    return res;
}

std::vector<Q> queries(const Conf& conf)
{
    bool vm2 = conf.format == DataFormat::VM2;
    auto prod = [&](unsigned p) { return vm2 ? mc::cat("product:VM2,", p) : mc::cat("product:GRIB1,200,140,", p); };
    auto area = [&](unsigned a) { return vm2 ? mc::cat("area:VM2,", a) : mc::cat("area:GRIB:lat=", a); };
    std::vector<Q> res;
    res.push_back({"", [](const Msg&) { return true; }});
    res.push_back({"reftime:=2020-01-01", [](const Msg& m) { return m.t.substr(0, 10) == "2020-01-01"; }});
    res.push_back({prod(1), [](const Msg& m) { return m.p == 1; }});
    // Matching VM2 areas needs a library that is not available
    if (!vm2)
        res.push_back({area(2), [](const Msg& m) { return m.a == 2; }});
    res.push_back({"reftime:>=2020-01-02", [](const Msg& m) { return m.t >= "2020-01-02"; }});
    res.push_back({"reftime:<2020-01-02;" + prod(1), [](const Msg& m) { return m.t < "2020-01-02" && m.p == 1; }});
    res.push_back({"reftime:>=2020-01-01 12:00,<=2020-01-31 00:00:00", [](const Msg& m) { return m.t >= "2020-01-01T12:00:00Z" && m.t <= "2020-01-31T00:00:00Z"; }, false});
    if (vm2)
        res.push_back({prod(1) + " or " + prod(3).substr(8), [](const Msg& m) { return m.p == 1 || m.p == 3; }});
    else
        res.push_back({prod(1) + " or " + prod(3).substr(8) + ";" + area(1), [](const Msg& m) { return (m.p == 1 || m.p == 3) && m.a == 1; }});
    res.push_back({"reftime:>=2020-02-01 00:00:00", [](const Msg& m) { return m.t >= "2020-02-01"; }});
    res.push_back({"reftime:<2020-01-01", [](const Msg& m) { return m.t < "2020-01-01"; }});
    res.push_back({"reftime:=2020-01-01 18:00:00", [](const Msg& m) { return m.t == "2020-01-01T18:00:00Z"; }, false});
    res.push_back({"reftime:=2021", [](const Msg&) { return false; }});
    res.push_back({"reftime:=2020-01-01 or >=2020-02", [](const Msg& m) { return m.t.substr(0, 10) == "2020-01-01" || m.t >= "2020-02"; }, false, false});
    res.push_back({"reftime:<2020-01-02,=00 or =2019", [](const Msg& m) { return (m.t < "2020-01-02" && m.t.substr(11, 2) == "00") || m.t.substr(0, 4) == "2019"; }, false, false});
    res.push_back({"reftime:>=2020-01-01 %6s", [](const Msg& m) { return m.t >= "2020-01-01" && std::stoi(m.t.substr(17, 2)) % 6 == 0; }, false, false});
    if (!vm2)
        res.push_back({"level:GRIB1,100,10", [](const Msg& m) { return m.l == 10; }});
    return res;
}

static std::string diff(const std::vector<Got>& got, const std::vector<Got>& exp)
{
    std::vector<Got> missing, extra;
    std::set_difference(exp.begin(), exp.end(), got.begin(), got.end(), std::back_inserter(missing));
    std::set_difference(got.begin(), got.end(), exp.begin(), exp.end(), std::back_inserter(extra));
    std::stringstream s;
    for (const auto& m : missing)
        s << " missing: " << mc::quote(m.data.substr(0, 80)) << " {" << m.items << "}";
    for (const auto& m : extra)
        s << " unexpected: " << mc::quote(m.data.substr(0, 80)) << " {" << m.items << "}";
    return s.str();
}

static std::string src_items(const Msg& m) { return items(*m.meta()); }

void verify(World& w, const std::vector<Msg>& expected, unsigned flags, const std::string& what)
{
    auto qs = queries(w.conf);
    if (!(flags & V_ALLQ))
        qs.resize(3);
    std::shared_ptr<dataset::Reader> shared;
    auto get_reader = [&] {
        if (flags & V_REUSE)
        {
            if (!shared)
                shared = w.reader();
            return shared;
        }
        return w.reader();
    };

    static std::map<std::string, std::string> items_cache;
    auto items_of = [&](const Msg& m) {
        auto id = m.id();
        auto i  = items_cache.find(id);
        if (i != items_cache.end())
            return i->second;
        return items_cache[id] = src_items(m);
    };

    for (const auto& q : qs)
    {
        std::vector<Msg> em;
        for (const auto& m : expected)
            if (q.match(m))
                em.push_back(m);
        std::vector<Got> exp;
        for (const auto& m : em)
            exp.push_back(Got{m.bytes(), items_of(m), m.t, ""});
        std::sort(exp.begin(), exp.end());

        if (flags & V_DATA)
        {
            auto g = query(*get_reader(), q.expr, true);
            std::sort(g.begin(), g.end());
            if (g != exp)
                throw mc::Fail("data-mismatch", what + ": query '" + q.expr + "':" + diff(g, exp));
        }
        if (flags & V_NODATA)
        {
            auto g = query(*get_reader(), q.expr, false);
            auto e = exp;
            for (auto& x : e)
                x.data.clear();
            std::sort(g.begin(), g.end());
            std::sort(e.begin(), e.end());
            if (g != e)
                throw mc::Fail("metadata-mismatch", what + ": query without data '" + q.expr + "':" + diff(g, e));
        }
        if (flags & V_SORT)
            for (const auto& so : {std::string("reftime"), std::string("-reftime"), std::string("product,-reftime")})
            {
                auto g = query(*get_reader(), q.expr, true, so);
                auto cmp = metadata::sort::Compare::parse(so);
                for (size_t i = 1; i < g.size(); ++i)
                {
                    bool bad;
                    // Segments are sorted one at a time
                    if (g[i - 1].file != g[i].file)
                        continue;
                    Msg a, b;
                    Msg::parse(w.conf.format, g[i - 1].data, a);
                    Msg::parse(w.conf.format, g[i].data, b);
                    if (so == "reftime") bad = a.t > b.t;
                    else if (so == "-reftime") bad = a.t < b.t;
                    else bad = a.p > b.p || (a.p == b.p && a.t < b.t);
                    if (bad)
                        throw mc::Fail("sort-order", what + ": query '" + q.expr + "' sorted by " + so + ": " + g[i - 1].data.substr(0, 60) + " comes before " + g[i].data.substr(0, 60));
                }
                std::sort(g.begin(), g.end());
                if (g != exp)
                    throw mc::Fail("sorted-data-mismatch", what + ": query '" + q.expr + "' sorted by " + so + ":" + diff(g, exp));
            }
        if (flags & V_BYTES)
        {
            // The bytes streamed are those of the matching messages
            auto b = query_bytes(*get_reader(), q.expr, "reftime");
            std::string e;
            auto g = query(*get_reader(), q.expr, true, "reftime");
            for (auto& x : g)
            {
                e += x.data;
                if (w.conf.format == DataFormat::VM2)
                    e += '\n';
            }
            if (b != e)
            {
                // Data with the same reference time can come in any order
                auto b1 = b, e1 = e;
                std::sort(b1.begin(), b1.end());
                std::sort(e1.begin(), e1.end());
                if (b1 != e1)
                    throw mc::Fail("bytes-mismatch", what + ": streamed data for '" + q.expr + "': got " + mc::quote(b.substr(0, 300)) + " expected " + mc::quote(e.substr(0, 300)));
            }
        }
        if (flags & V_SUMMARY)
        {
            Summary s;
            get_reader()->query_summary(w.session->matcher(q.expr), s);
            auto g     = summarise(s);
            auto e     = expected_summary(em);
            bool ref   = q.expr.find("reftime") != std::string::npos;
            bool exact = !ref || (w.conf.step == "daily" && q.exact_summary) || (w.conf.type == "iseg" && q.span && !fs::exists(w.root + "/.archive"));
            if (!exact)
            {
                // Summaries of segments that are partly selected can only be
                // narrowed by the items they list
                auto all = expected_summary(expected);
                for (auto& i : e)
                {
                    auto j = g.find(i.first);
                    if (j == g.end() || j->second.count < i.second.count || j->second.begin > i.second.begin || j->second.end < i.second.end)
                        throw mc::Fail("summary-mismatch", what + ": summary for '" + q.expr + "': got\n" + str(g) + "expected at least\n" + str(e));
                }
                for (auto& i : g)
                {
                    auto j = all.find(i.first);
                    if (j == all.end() || i.second.count > j->second.count || i.second.size > j->second.size)
                        throw mc::Fail("summary-mismatch", what + ": summary for '" + q.expr + "': got\n" + str(g) + "more than is stored:\n" + str(all));
                }
            }
            else
            {
                if (!(g == e))
                    throw mc::Fail("summary-mismatch", what + ": summary for '" + q.expr + "': got\n" + str(g) + "expected\n" + str(e));
            }
        }
    }
    if ((flags & V_INTERVAL) && w.conf.type != "iseg")
    {
        auto i = get_reader()->get_stored_time_interval();
        if (!expected.empty())
        {
            std::string tmin = expected[0].t, tmax = expected[0].t;
            for (const auto& m : expected)
            {
                tmin = std::min(tmin, m.t);
                tmax = std::max(tmax, m.t);
            }
            core::Time a = core::Time::create_iso8601(tmin), b = core::Time::create_iso8601(tmax);
            if ((i.begin.is_set() && i.begin > a) || (i.end.is_set() && i.end <= b))
                throw mc::Fail("interval-mismatch", what + ": stored interval " + i.to_string() + " does not contain " + tmin + " to " + tmax);
        }
    }
}

std::vector<Msg> visible(World& w)
{
    std::vector<Msg> res;
    for (const auto& g : query(*w.reader(), "", true))
    {
        Msg m;
        if (!Msg::parse(w.conf.format, g.data, m))
        {
            bool ok = false;
            for (auto f : {DataFormat::GRIB, DataFormat::BUFR})
                if (!ok && Msg::parse(f, g.data, m))
                    ok = true;
            if (!ok)
                throw mc::Fail("garbage-data", "query returns data that was never stored: " + mc::quote(g.data.substr(0, 200)));
        }
        if (g.items != items(*m.meta()))
            throw mc::Fail("metadata-mismatch", "data " + m.id().substr(0, 100) + " comes with metadata " + g.items);
        res.push_back(m);
    }
    return res;
}

/*
 * Acting
 */

Applied apply(World& w, const std::string& op)
{
    Applied res;
    auto tov = dataset::SessionTime::local_override(now());
    auto rec = std::make_shared<Recorder>();
    try
    {
        if (op[0] == 'i' && op.size() > 1 && isdigit((unsigned char)op[1]))
        {
            std::string strategy;
            auto batches = op_batches(op, strategy);
            auto writer  = w.writer();
            dataset::AcquireConfig cfg;
            if (strategy == "never") cfg.replace = ReplaceStrategy::NEVER;
            else if (strategy == "always") cfg.replace = ReplaceStrategy::ALWAYS;
            else if (strategy == "usn") cfg.replace = ReplaceStrategy::HIGHER_USN;
            for (const auto& b : batches)
            {
                metadata::InboundBatch batch;
                for (auto i : b)
                    batch.add(msg(w.conf, i).inlined());
                cfg.drop_cached_data_on_commit = b.size() % 2;
                writer->acquire_batch(batch, cfg);
                for (const auto& e : batch)
                {
                    char r = '?';
                    switch (e->result)
                    {
                        case metadata::Inbound::Result::OK:        r = 'K'; break;
                        case metadata::Inbound::Result::DUPLICATE: r = 'D'; break;
                        case metadata::Inbound::Result::ERROR:     r = 'E'; break;
                    }
                    res.results += r;
                    res.destinations.push_back(e->destination);
                }
                res.results += '/';
            }
            writer->flush();
        }
        else if (op[0] == 'd' && op.size() > 1 && isdigit((unsigned char)op[1]))
        {
            std::set<std::string> ids;
            for (auto i : op_msgs(op))
                ids.insert(msg(w.conf, i).bytes());
            metadata::Collection mds, todel;
            {
                auto r = w.reader();
                query::Data dq(w.session->matcher(""), true);
                r->query_data(dq, [&](std::shared_ptr<Metadata> md) {
                    if (md->has_source_blob() && md->sourceBlob().basedir == std::filesystem::path(w.root) && ids.count(bytes_of(*md)))
                    {
                        md->drop_cached_data();
                        mds.push_back(*md);
                    }
                    return true;
                });
            }
            for (auto& md : mds)
            {
                auto c = md->clone();
                c->sourceBlob().unlock();
                todel.acquire(c);
            }
            mds.clear();
            w.checker()->remove(todel);
        }
        else
        {
            auto checker = w.checker();
            dataset::CheckerConfig cc(rec, false);
            auto* sc  = dynamic_cast<dataset::segmented::Checker*>(checker.get());
            std::string o = op;
            if (o.back() == '?')
            {
                cc.readonly = true;
                o.pop_back();
            }
            if (o == "rp") checker->repack(cc);
            else if (o == "ck") checker->check(cc);
            else if (o == "cka") { cc.accurate = true; checker->check(cc); }
            else if (o == "tar") checker->tar(cc);
            else if (o == "zip") checker->zip(cc);
            else if (o == "gz") checker->compress(cc, 512);
            else if (o == "gz1") checker->compress(cc, 1);
            else if (o == "gz2") checker->compress(cc, 2);
            else if (o == "gz0") checker->compress(cc, 0);
            else if (o == "ra") checker->remove_all(cc);
            else if (o == "ro") checker->remove_old(cc);
            else if (o == "is51") checker->check_issue51(cc);
            else if (o == "vac") sc->vacuum(*rec);
            else if (o.compare(0, 4, "arc:") == 0)
                sc->segment(sc->dataset().segment_session->segment_from_relpath(o.substr(4)))->archive();
            else if (o.compare(0, 4, "una:") == 0)
                sc->segment(sc->dataset().segment_session->segment_from_relpath(o.substr(4)))->unarchive();
            else if (o.compare(0, 4, "rsc:") == 0)
                sc->segment(sc->dataset().segment_session->segment_from_relpath(o.substr(4)))->rescan(*rec);
            else if (o.compare(0, 4, "rps:") == 0)
                sc->segment(sc->dataset().segment_session->segment_from_relpath(o.substr(4)))->repack();
            else if (o == "q") // queries, which may fill caches
            {
                for (const auto& q : queries(w.conf))
                {
                    Summary s;
                    w.reader()->query_summary(w.session->matcher(q.expr), s);
                }
            }
            else throw std::logic_error("mc: bad op " + op);
        }
    }
    catch (mc::Fail&)
    {
        throw;
    }
    catch (std::logic_error& e)
    {
        if (strncmp(e.what(), "mc: bad op", 10) == 0)
            throw;
        res.threw = true;
        res.error = e.what();
    }
    catch (std::exception& e)
    {
        res.threw = true;
        res.error = e.what();
    }
    res.rec.log = rec->log;
    return res;
}

std::map<std::string, std::string> states(World& w, bool accurate)
{
    auto tov = dataset::SessionTime::local_override(now());
    std::map<std::string, std::string> res;
    auto checker = w.checker();
    auto* sc     = dynamic_cast<dataset::segmented::Checker*>(checker.get());
    dataset::NullReporter rep;
    dataset::CheckerConfig cc;
    sc->segments_recursive(cc, [&](dataset::segmented::Checker& c, dataset::segmented::CheckerSegment& s) {
        auto p = (c.dataset().name() == "ds" ? std::string() : c.dataset().name() + ":") + s.path_relative().native();
        res[p] = s.fsck(rep, !accurate).state.to_string();
    });
    return res;
}

/*
 * Files
 */

static std::string dump_sqlite(const std::string& path)
{
    sqlite3* db = nullptr;
    std::string res;
    if (sqlite3_open_v2(path.c_str(), &db, SQLITE_OPEN_READONLY, nullptr) != SQLITE_OK)
    {
        sqlite3_close(db);
        return "bad " + slurp(path);
    }
    std::vector<std::string> tables;
    auto cb = [](void* p, int, char** v, char**) {
        ((std::vector<std::string>*)p)->push_back(v[0] ? v[0] : "");
        return 0;
    };
    if (sqlite3_exec(db, "select name from sqlite_master where type='table' order by name", cb, &tables, nullptr) != SQLITE_OK)
        res = "bad " + slurp(path);
    for (const auto& t : tables)
    {
        res += "[" + t + "]\n";
        sqlite3_stmt* st = nullptr;
        if (sqlite3_prepare_v2(db, ("select * from \"" + t + "\"").c_str(), -1, &st, nullptr) != SQLITE_OK)
        {
            res += "?";
            continue;
        }
        std::set<std::string> rows;
        while (sqlite3_step(st) == SQLITE_ROW)
        {
            std::string row;
            for (int i = 0; i < sqlite3_column_count(st); ++i)
            {
                auto p = sqlite3_column_blob(st, i);
                auto n = sqlite3_column_bytes(st, i);
                row += std::string((const char*)p, p ? n : 0) + "\x01";
            }
            rows.insert(row);
        }
        sqlite3_finalize(st);
        for (auto& r : rows)
            res += r + "\n";
    }
    sqlite3_close(db);
    return res;
}

static bool endswith(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

std::string state_digest(const std::string& root)
{
    auto t     = tree_contents(root);
    uint64_t h = 17;
    for (auto& f : t)
    {
        std::string c = f.second;
        if (endswith(f.first, "MANIFEST"))
        {
            std::string n;
            for (const auto& l : mc::split(c, '\n'))
            {
                auto p = mc::split(l, ';');
                if (p.size() == 4)
                    n += p[0] + ";" + p[2] + ";" + p[3] + "\n";
                else
                    n += l + "\n";
            }
            c = n;
        }
        else if (endswith(f.first, ".index"))
            c = dump_sqlite(root + "/" + f.first);
        else if (endswith(f.first, ".index-shm") || endswith(f.first, ".index-wal"))
            continue;
        h = mc::mix(h, mc::hash(f.first));
        h = mc::mix(h, mc::hash(c));
    }
    return std::to_string(h);
}

void age(const std::string& root, int seconds)
{
    if (!fs::exists(root))
        return;
    std::vector<std::string> manifests;
    for (auto& e : fs::recursive_directory_iterator(root))
    {
        if (e.is_directory())
            continue;
        auto p = e.path().native();
        if (endswith(p, "/MANIFEST"))
        {
            std::string n;
            for (const auto& l : mc::split(slurp(p), '\n'))
            {
                if (l.empty())
                    continue;
                auto f = mc::split(l, ';');
                if (f.size() == 4 && !f[1].empty())
                {
                    f[1] = std::to_string(std::stoll(f[1]) - seconds);
                    n += mc::join(f, ";") + "\n";
                }
                else
                    n += l + "\n";
            }
            struct stat st;
            ::stat(p.c_str(), &st);
            spew(p, n);
            struct timespec ts[2] = {st.st_atim, st.st_mtim};
            utimensat(AT_FDCWD, p.c_str(), ts, 0);
        }
        struct stat st;
        if (::lstat(p.c_str(), &st) != 0)
            continue;
        struct timespec ts[2] = {st.st_atim, st.st_mtim};
        ts[0].tv_sec -= seconds;
        ts[1].tv_sec -= seconds;
        utimensat(AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW);
    }
}

std::string layout(const std::string& root, const std::string& relpath)
{
    for (const char* e : {"", ".gz", ".tar", ".zip"})
    {
        auto p = root + "/" + relpath + e;
        if (fs::exists(p))
            return fs::is_directory(p) ? "dir" : *e ? e : "file";
    }
    return "none";
}

} // namespace mc::ds
