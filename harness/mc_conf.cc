// Configurations, JSON, and what they are read with: all small documents,
// written and read back, and read with an independent parser.
#include "common_ds.h"
#include <algorithm>
#include <arki/core/cfg.h>
#include <arki/core/file.h>
#include <arki/dataset/session.h>
#include <arki/structured/json.h>
#include <arki/structured/memory.h>
#include <arki/utils/string.h>
#include <arki/utils/sys.h>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <unistd.h>

using namespace mc;
namespace fs = std::filesystem;
namespace cfg = arki::core::cfg;
namespace str = arki::utils::str;
using arki::core::BufferedReader;
using arki::core::LineReader;

namespace {

typedef std::map<std::string, std::map<std::string, std::string>> Doc;

/*
 * Input that comes in small pieces
 */

struct Pieces : public arki::core::AbstractInputFile
{
    const std::string& data;
    size_t pos = 0, piece;
    std::filesystem::path name = "pieces";
    Pieces(const std::string& data, size_t piece) : data(data), piece(piece) {}
    std::filesystem::path path() const override { return name; }
    size_t read(void* dest, size_t size) override
    {
        size = std::min({size, piece, data.size() - pos});
        memcpy(dest, data.data() + pos, size);
        pos += size;
        return size;
    }
};

// Call f with a reader of data of each kind
template <typename R, typename F> void all_readers(const std::string& data, F f)
{
    f("chars", *R::from_chars(data.data(), data.size()));
    f("string", *R::from_string(data));
    for (size_t piece : {1, 2, 3, 65536})
    {
        Pieces p(data, piece);
        f("pieces of " + std::to_string(piece), *R::from_abstract(p));
    }
    std::string name = scratch() + "/input";
    spew(name, data);
    arki::core::File in(name, O_RDONLY);
    f("file", *R::from_fd(in));
}

/*
 * Lines
 */

void lines_case(Ctx& c, const std::string& data)
{
    std::vector<std::string> exp;
    std::string cur;
    for (char ch : data)
        if (ch == '\n')
            exp.push_back(cur), cur.clear();
        else
            cur += ch;
    if (!cur.empty())
        exp.push_back(cur);
    all_readers<LineReader>(data, [&](const std::string& kind, LineReader& r) {
        c.eval(), c.states();
        std::vector<std::string> got;
        std::string line = "leftover";
        if (r.eof())
            throw mc::Fail("lines-eof", kind + " is at the end before it is read");
        while (r.getline(line))
            got.push_back(line);
        if (!line.empty() || !r.eof())
            throw mc::Fail("lines-eof", kind + " does not say that it is at the end");
        if (got != exp)
            throw mc::Fail("lines", kind + " has " + std::to_string(got.size()) + " lines instead of " + std::to_string(exp.size()));
        if (r.getline(line))
            throw mc::Fail("lines-eof", kind + " goes on after the end");
    });
    all_readers<BufferedReader>(data, [&](const std::string& kind, BufferedReader& r) {
        c.eval();
        std::string got;
        while (true)
        {
            int p = r.peek(), g = r.get();
            if (p != g)
                throw mc::Fail("chars", kind + " gives " + std::to_string(g) + " after announcing " + std::to_string(p));
            if (g == EOF)
                break;
            got += (char)g;
        }
        if (r.peek() != EOF || r.get() != EOF)
            throw mc::Fail("chars", kind + " goes on after the end");
        if (got != data)
            throw mc::Fail("chars", kind + " gives different data");
    });
    c.distinct("lines" + data);
}

void lines(Ctx& c, const std::string& task)
{
    // task is lines|LEN or lines|big|N
    auto args = split(task, '|');
    if (args[1] == "big")
    {
        long n = std::stol(args[2]);
        for (int tail : {0, 1, 2})
        {
            // A line that ends around the end of the buffer
            std::string d(n, 'x');
            d += tail == 0 ? "" : tail == 1 ? "\n" : "\nlast";
            c.current(task + " tail " + std::to_string(tail));
            lines_case(c, d);
            lines_case(c, "first\n" + d);
        }
        return;
    }
    const std::string alpha("a\n\0\xff", 4);
    unsigned len = std::stoul(args[1]);
    std::string s(len, 0);
    unsigned total = 1;
    for (unsigned i = 0; i < len; ++i)
        total *= alpha.size();
    for (unsigned n = 0; n < total; ++n)
    {
        unsigned v = n;
        for (auto& ch : s)
            ch = alpha[v % alpha.size()], v /= alpha.size();
        c.current("lines of " + quote(s));
        lines_case(c, s);
    }
}

/*
 * Configurations: an independent parser
 */

bool blank(char c) { return c == ' ' || c == '\t'; }
bool name_char(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '-'; }
std::string trim(std::string s)
{
    while (!s.empty() && isspace((unsigned char)s.front()))
        s.erase(0, 1);
    while (!s.empty() && isspace((unsigned char)s.back()))
        s.pop_back();
    return s;
}

struct Line
{
    enum { EMPTY, SECTION, VALUE, BAD, UNSPECIFIED } kind = BAD;
    std::string name, value;
};

Line parse_line(const std::string& l)
{
    Line res;
    size_t i = 0;
    while (i < l.size() && blank(l[i]))
        ++i;
    if (i == l.size() || l[i] == '#' || l[i] == ';')
    {
        res.kind = Line::EMPTY;
        return res;
    }
    if (l[i] == '[')
    {
        size_t e = l.find(']', i);
        if (e == std::string::npos)
            return res;
        std::string name = l.substr(i + 1, e - i - 1);
        while (!name.empty() && blank(name[0]))
            name.erase(0, 1);
        while (!name.empty() && blank(name.back()))
            name.pop_back();
        if (name.empty() || !std::all_of(name.begin(), name.end(), name_char))
            return res;
        // What comes around is not specified
        res.kind = i == 0 && e + 1 == l.size() ? Line::SECTION : Line::UNSPECIFIED;
        res.name = name;
        return res;
    }
    size_t eq = l.find('=');
    if (eq == std::string::npos)
        return res;
    std::string key = l.substr(i, eq - i);
    while (!key.empty() && blank(key.back()))
        key.pop_back();
    if (key.empty() || !std::all_of(key.begin(), key.end(), [](char c) { return name_char(c) || blank(c); }))
        return res;
    res.kind  = Line::VALUE;
    res.name  = key;
    res.value = trim(l.substr(eq + 1));
    if (res.value.size() >= 2 && res.value.front() == '"' && res.value.back() == '"')
        res.value = res.value.substr(1, res.value.size() - 2);
    return res;
}

std::string show(const Doc& d)
{
    std::string res;
    for (auto& s : d)
    {
        res += "[" + s.first + "]";
        for (auto& v : s.second)
            res += quote(v.first) + "=" + quote(v.second) + ";";
    }
    return res;
}

Doc to_doc(const cfg::Sections& s)
{
    Doc res;
    for (auto& i : s)
    {
        auto& d = res[i.first];
        for (auto& v : *i.second)
            d[v.first] = v.second;
    }
    return res;
}

// Parse text with the library, as a section or as sections
std::string lib_parse(LineReader& r, bool sections)
{
    try
    {
        if (sections)
            return show(to_doc(*cfg::Sections::parse(r, "mc")));
        cfg::Sections s;
        s.emplace("", cfg::Section::parse(r, "mc"));
        return show(to_doc(s));
    }
    catch (cfg::ParseError& e)
    {
        // Only the line of the error is compared
        auto f = split(e.what(), ':');
        return "error at " + (f.size() > 1 ? f[1] : std::string("?"));
    }
}

// "" if it is not specified
std::string ref_parse(const std::string& text, bool sections)
{
    Doc d;
    std::string cur;
    bool in_section = !sections;
    if (!sections)
        d[""];
    auto ls = split(text, '\n');
    if (!ls.empty() && ls.back().empty())
        ls.pop_back();
    for (size_t n = 0; n < ls.size(); ++n)
    {
        auto l   = parse_line(ls[n]);
        auto err = "error at " + std::to_string(n + 1);
        switch (l.kind)
        {
            case Line::EMPTY:       break;
            case Line::UNSPECIFIED: return "";
            case Line::BAD:         return err;
            case Line::SECTION:
                if (!sections)
                    return err;
                cur        = l.name;
                in_section = true;
                d[cur];
                break;
            case Line::VALUE:
                if (!in_section)
                    return err;
                d[cur][l.name] = l.value;
                break;
        }
    }
    return show(d);
}

void conf_text(Ctx& c, const std::string& text, bool files)
{
    for (bool sections : {false, true})
    {
        auto exp = ref_parse(text, sections);
        if (exp.empty())
            continue;
        auto check = [&](const std::string& kind, LineReader& r) {
            c.eval(), c.states();
            auto got = lib_parse(r, sections);
            if (got != exp)
                throw mc::Fail("conf-parse", kind + (sections ? " as sections" : " as a section") + " is read as " + got + " instead of " + exp);
        };
        if (files)
            all_readers<LineReader>(text, check);
        else
            check("text", *LineReader::from_string(text));
        c.distinct("conf" + exp);
    }
}

void conf_line(Ctx& c, const std::string& task)
{
    // task is line|FIRST|LEN: lines that are sequences of tokens
    auto args           = split(task, '|');
    const char* TOKS[]  = {" ", "\t", "[", "]", "k", "x-1.y_Z", "=", "\"", "#", ";", "v/:", "\r"};
    const unsigned n    = std::size(TOKS);
    unsigned len        = std::stoul(args[2]);
    std::vector<unsigned> seq(len, 0);
    while (true)
    {
        std::string l = TOKS[std::stoul(args[1])];
        for (auto i : seq)
            l += TOKS[i];
        c.current("configuration line " + quote(l));
        conf_text(c, l, false);
        conf_text(c, "[s]\n" + l + "\n", false);
        size_t i = 0;
        while (i < len && ++seq[i] == n)
            seq[i++] = 0;
        if (i == len)
            break;
    }
}

void conf_doc(Ctx& c, const std::string& task)
{
    // task is doc|FIRST|LEN
    auto args          = split(task, '|');
    const char* LS[] = {"", "  # note", ";x", "[a]", "[ b.1 ]", "k = v", "k=w", "a b = \" x \"", "n =", "k = [a]", "a = b = c", "junk", "[]", "= v", "q = \"", "key = # no comment"};
    const unsigned n = std::size(LS);
    unsigned len     = std::stoul(args[2]);
    std::vector<unsigned> seq(len, 0);
    while (true)
    {
        std::string d = LS[std::stoul(args[1])];
        for (auto i : seq)
            d += std::string("\n") + LS[i];
        for (auto end : {"", "\n"})
        {
            c.current("configuration " + quote(d + end));
            conf_text(c, d + end, len < 2);
        }
        size_t i = 0;
        while (i < len && ++seq[i] == n)
            seq[i++] = 0;
        if (i == len)
            break;
    }
}

std::string dumped(std::function<void(FILE*)> f)
{
    char* buf   = nullptr;
    size_t size = 0;
    FILE* out   = open_memstream(&buf, &size);
    f(out);
    fclose(out);
    std::string res(buf, size);
    free(buf);
    return res;
}

void conf_values(Ctx& c, const std::string& task)
{
    // task is values|LEN: what is set is read back after being written
    const std::string alpha = " \t\"=#;[]a\\";
    unsigned len            = std::stoul(split(task, '|')[1]);
    unsigned total          = 1;
    for (unsigned i = 0; i < len; ++i)
        total *= alpha.size();
    std::string v(len, 0);
    for (unsigned n = 0; n < total; ++n)
    {
        unsigned x = n;
        for (auto& ch : v)
            ch = alpha[x % alpha.size()], x /= alpha.size();
        c.current("value " + quote(v));
        c.eval(), c.states();
        cfg::Sections s;
        s.obtain("b")->set("a key", v);
        s.obtain("b")->set("other", "1");
        s.obtain("a")->set("num", 7);
        s.obtain("empty");
        auto exp = show(to_doc(s));
        // Empty values are the same as missing ones
        if (v.empty())
        {
            auto d = to_doc(s);
            d["b"].erase("a key");
            exp = show(d);
        }
        auto check = [&](const std::string& what, const std::string& text) {
            std::string got;
            try
            {
                got = show(to_doc(*cfg::Sections::parse(text)));
            }
            catch (std::exception& e)
            {
                got = std::string("error: ") + e.what();
            }
            if (got != exp)
                throw mc::Fail("conf-write", what + ", " + exp + " is read back as " + got);
        };
        check("written", s.to_string());
        check("dumped", dumped([&](FILE* f) { s.dump(f); }));
        std::stringstream out;
        s.write(out);
        check("streamed", out.str());
        auto sec  = s.section("b");
        auto back = cfg::Section::parse(sec->to_string());
        if (back->value("a key") != v || back->value("other") != "1" || back->size() != (v.empty() ? 1u : 2u))
            throw mc::Fail("conf-write", "the section " + sec->to_string() + " is read back with " + quote(back->value("a key")));
        auto back1 = cfg::Section::parse(dumped([&](FILE* f) { sec->dump(f); }));
        if (back1->to_string() != back->to_string() || back1->size() != back->size())
            throw mc::Fail("conf-write", "the section " + sec->to_string() + " is dumped as something else");
        // Copies do not share sections
        cfg::Sections copy(s), assigned;
        assigned = s;
        s.obtain("b")->set("other", "2");
        s.obtain("b")->unset("a key");
        if (show(to_doc(copy)) != show(to_doc(assigned)) || copy.section("b")->value("other") != "1" || copy.section("b")->value("a key") != v)
            throw mc::Fail("conf-copy", "a copy changed with the original");
        if (s.section("b")->has("a key") || !s.section("b")->has("other") || s.section("nope") || s.section("b")->value("nope") != "")
            throw mc::Fail("conf-access", "wrong values after changing a section");
    }
}

void conf_bool(Ctx& c, const std::string&)
{
    for (auto t : {"true", "yes", "on", "1", "TRUE", "Yes", " on ", "oN", "false", "no", "off", "0", "FALSE", "nO", "\tOff", "", "  ", "2", "t", "y", "onn", "true false", "-1", "00"})
        for (bool def : {true, false})
        {
            c.current(std::string("bool ") + t);
            c.eval(), c.states();
            std::string l = trim(t);
            for (auto& ch : l)
                ch = tolower(ch);
            int exp = l == "true" || l == "yes" || l == "on" || l == "1" ? 1 : l == "" || l == "false" || l == "no" || l == "off" || l == "0" ? 0 : -1;
            cfg::Section s;
            if (s.value_bool("k", def) != def)
                c.fail("conf-bool", "the default is not used");
            s.set("k", t);
            int got;
            try
            {
                got = s.value_bool("k", def);
            }
            catch (std::exception&)
            {
                got = -1;
            }
            if (got != exp)
                c.fail("conf-bool", "'" + std::string(t) + "' is " + std::to_string(got) + " instead of " + std::to_string(exp));
        }
}

/*
 * Configuration of datasets and files, by name
 */

void conf_paths(Ctx& c, const std::string& task)
{
    using arki::dataset::Session;
    std::string root = fresh_scratch();
    root             = fs::canonical(root);
    auto old         = fs::current_path();
    fs::create_directories(root + "/ds/.archive/2007");
    fs::create_directories(root + "/remote");
    fs::create_directories(root + "/noconf");
    spew(root + "/ds/config", "type = iseg\nstep = daily\nfilter = origin:GRIB1\narchive age = 10\ndelete age = 20\nname = wrong\npath = /wrong");
    spew(root + "/remote/config", "type = remote\npath = http://host/ds\n");
    spew(root + "/a.grib", "x");
    spew(root + "/b.arkimet", "x");
    spew(root + "/noext", "[s1]\ntype = iseg\n[s2]\nkey = val");
    spew(root + "/odd.xyz", "[s3]\nk = 1\n");
    spew(root + "/conf.cfg", "[s4]\nk = 1");
    typedef std::map<std::string, std::string> M;
    M ds{{"type", "iseg"}, {"step", "daily"}, {"filter", "origin:GRIB1"}, {"archive age", "10"}, {"delete age", "20"}, {"name", "ds"}, {"path", root + "/ds"}};
    M arc{{"type", "simple"}, {"step", "daily"}, {"filter", "origin:GRIB1"}, {"name", "2007"}, {"path", root + "/ds/.archive/2007"}};
    M remote{{"type", "remote"}, {"path", "http://host/ds"}, {"name", "remote"}};
    auto file = [&](const std::string& given, const std::string& format, const std::string& name) { return M{{"type", "file"}, {"format", format}, {"name", given}, {"path", root + "/" + name}}; };
    for (bool relative : {false, true})
    {
        if (relative)
            fs::current_path(root);
        std::string base = relative ? "" : root + "/";
        struct Case
        {
            std::string path;
            std::vector<M> exp;    // read_config: empty if it is an error
            bool multi_error = false;
            Doc multi;             // read_configs if it is not just the same
        };
        std::vector<Case> cases{
            {base + "ds", {ds}},
            {base + "ds/", {ds}},
            {base + "./ds", {ds}},
            {base + "ds/../ds", {ds}},
            {base + "ds/.archive/2007", {arc}},
            {base + "remote", {remote}},
            {base + "noconf", {}, true},
            {base + "missing", {}, true},
            {base + "missing.grib", {}, true},
            {base + "a.grib", {file(base + "a.grib", "grib", "a.grib")}},
            {base + "b.arkimet", {file(base + "b.arkimet", "arkimet", "b.arkimet")}},
            {"bufr:" + base + "a.grib", {file(base + "a.grib", "bufr", "a.grib")}},
            {"grib2:" + base + "a.grib", {file(base + "a.grib", "grib", "a.grib")}},
            {"grib:" + base + "missing", {}, true},
            {"what:" + base + "a.grib", {}, true},
            {base + "noext", {}, false, {{"s1", {{"type", "iseg"}}}, {"s2", {{"key", "val"}}}}},
            {base + "odd.xyz", {}, false, {{"s3", {{"k", "1"}}}}},
            {base + "conf.cfg", {}, false, {{"s4", {{"k", "1"}}}}},
        };
        for (auto& k : cases)
        {
            c.current(task + " configuration of " + k.path + (relative ? " relative" : ""));
            c.eval(), c.states();
            std::string got, exp = "error", mgot, mexp = "error";
            if (!k.exp.empty())
            {
                exp  = show(Doc{{"", k.exp[0]}});
                mexp = show(Doc{{k.exp[0]["name"], k.exp[0]}});
            }
            if (!k.multi.empty())
                mexp = show(k.multi);
            try
            {
                cfg::Sections s;
                s.emplace("", Session::read_config(k.path));
                got = show(to_doc(s));
            }
            catch (std::exception& e)
            {
                got = "error";
            }
            try
            {
                mgot = show(to_doc(*Session::read_configs(k.path)));
            }
            catch (std::exception& e)
            {
                mgot = "error";
            }
            if (got != exp)
                c.fail("conf-path", "the configuration of " + k.path + " is " + got + " instead of " + exp);
            if (mgot != mexp)
                c.fail("conf-path", "configurations in " + k.path + " are " + mgot + " instead of " + mexp);
            c.distinct(got + mgot);
        }
        // A file named config can only be read as the one of its directory
        c.current(task + " config");
        auto s = Session::read_config(base + "ds/config");
        if (relative ? false : (s->value("name") != "ds" || s->value("path") != root + "/ds"))
            c.fail("conf-path", "the configuration in ds/config is of " + s->value("name") + " at " + s->value("path"));
        fs::current_path(old);
    }
}

/*
 * JSON
 */

struct Val
{
    enum Kind { NIL, BOOL, INT, DOUBLE, STRING, LIST, MAP } kind = NIL;
    bool b = false;
    long long i = 0;
    double d = 0;
    std::string s;
    std::vector<Val> l;
    std::map<std::string, Val> m;

    std::string repr() const
    {
        char buf[64];
        switch (kind)
        {
            case NIL:    return "null";
            case BOOL:   return b ? "true" : "false";
            case INT:    return std::to_string(i);
            case DOUBLE: snprintf(buf, 64, "%.17gd", d); return buf;
            case STRING: return quote("'" + s + "'");
            case LIST: {
                std::string r = "[";
                for (auto& v : l)
                    r += v.repr() + ",";
                return r + "]";
            }
            case MAP: {
                std::string r = "{";
                for (auto& v : m)
                    r += quote("'" + v.first + "'") + ":" + v.second.repr() + ",";
                return r + "}";
            }
        }
        return "";
    }
    void emit(arki::structured::Emitter& e) const
    {
        switch (kind)
        {
            case NIL:    e.add_null(); break;
            case BOOL:   e.add(b); break;
            case INT:    e.add_int(i); break;
            case DOUBLE: e.add(d); break;
            case STRING: e.add(s); break;
            case LIST:
                e.start_list();
                for (auto& v : l)
                    v.emit(e);
                e.end_list();
                break;
            case MAP:
                e.start_mapping();
                for (auto& v : m)
                {
                    e.add(v.first);
                    v.second.emit(e);
                }
                e.end_mapping();
                break;
        }
    }
};

Val mk(Val::Kind k)
{
    Val v;
    v.kind = k;
    return v;
}
Val mk_str(const std::string& s)
{
    auto v = mk(Val::STRING);
    v.s    = s;
    return v;
}
Val mk_int(long long i)
{
    auto v = mk(Val::INT);
    v.i    = i;
    return v;
}
Val mk_double(double d)
{
    auto v = mk(Val::DOUBLE);
    v.d    = d;
    return v;
}
Val mk_bool(bool b)
{
    auto v = mk(Val::BOOL);
    v.b    = b;
    return v;
}

// What the library read
Val from_reader(const arki::structured::Reader& r)
{
    using arki::structured::NodeType;
    switch (r.type())
    {
        case NodeType::NONE:   return mk(Val::NIL);
        case NodeType::BOOL:   return mk_bool(r.as_bool("v"));
        case NodeType::INT:    return mk_int(r.as_int("v"));
        case NodeType::DOUBLE: return mk_double(r.as_double("v"));
        case NodeType::STRING: return mk_str(r.as_string("v"));
        case NodeType::LIST:   {
            auto v = mk(Val::LIST);
            for (unsigned i = 0; i < r.list_size("l"); ++i)
                r.list_sub(i, "e", [&](const arki::structured::Reader& e) { v.l.push_back(from_reader(e)); });
            return v;
        }
        case NodeType::MAPPING: {
            auto v = mk(Val::MAP);
            r.items("m", [&](const std::string& k, const arki::structured::Reader& e) { v.m[k] = from_reader(e); });
            return v;
        }
    }
    return Val();
}

// Strict JSON parser, written from RFC 8259
struct Strict
{
    const std::string& s;
    size_t p = 0;
    Strict(const std::string& s) : s(s) {}
    [[noreturn]] void bad(const std::string& what) { throw mc::Fail("json-invalid", "not valid JSON at " + std::to_string(p) + " (" + what + "): " + quote(s)); }
    int peek() { return p < s.size() ? (unsigned char)s[p] : -1; }
    void ws()
    {
        while (p < s.size() && strchr(" \t\r\n", s[p]))
            ++p;
    }
    void lit(const char* l)
    {
        if (s.compare(p, strlen(l), l))
            bad(l);
        p += strlen(l);
    }
    std::string string()
    {
        std::string r;
        lit("\"");
        while (true)
        {
            int ch = peek();
            if (ch == -1 || ch < 0x20)
                bad("string");
            ++p;
            if (ch == '"')
                return r;
            if (ch != '\\')
            {
                r += (char)ch;
                continue;
            }
            ch = peek();
            ++p;
            switch (ch)
            {
                case '"': case '\\': case '/': r += (char)ch; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'n': r += '\n'; break;
                case 'r': r += '\r'; break;
                case 't': r += '\t'; break;
                case 'u': {
                    if (p + 4 > s.size())
                        bad("escape");
                    unsigned code = std::stoul(s.substr(p, 4), nullptr, 16);
                    if (code >= 0x80)
                        bad("unexpected escape");
                    r += (char)code;
                    p += 4;
                    break;
                }
                default: bad("escape");
            }
        }
    }
    Val value()
    {
        ws();
        Val r;
        int ch = peek();
        if (ch == 'n')
            lit("null");
        else if (ch == 't')
            lit("true"), r = mk_bool(true);
        else if (ch == 'f')
            lit("false"), r = mk_bool(false);
        else if (ch == '"')
            r = mk_str(string());
        else if (ch == '[')
        {
            ++p;
            r = mk(Val::LIST);
            ws();
            if (peek() == ']')
                ++p;
            else
                while (true)
                {
                    r.l.push_back(value());
                    if (peek() == ']')
                    {
                        ++p;
                        break;
                    }
                    lit(",");
                }
        }
        else if (ch == '{')
        {
            ++p;
            r = mk(Val::MAP);
            ws();
            if (peek() == '}')
                ++p;
            else
                while (true)
                {
                    ws();
                    auto k = string();
                    ws();
                    lit(":");
                    if (!r.m.emplace(k, value()).second)
                        bad("repeated key");
                    if (peek() == '}')
                    {
                        ++p;
                        break;
                    }
                    lit(",");
                }
        }
        else
        {
            size_t b    = p;
            bool is_dbl = false;
            if (peek() == '-')
                ++p;
            if (!isdigit(peek()))
                bad("value");
            if (peek() == '0')
                ++p;
            else
                while (isdigit(peek()))
                    ++p;
            if (peek() == '.')
            {
                is_dbl = true;
                ++p;
                if (!isdigit(peek()))
                    bad("number");
                while (isdigit(peek()))
                    ++p;
            }
            if (peek() == 'e' || peek() == 'E')
            {
                is_dbl = true;
                ++p;
                if (peek() == '+' || peek() == '-')
                    ++p;
                if (!isdigit(peek()))
                    bad("number");
                while (isdigit(peek()))
                    ++p;
            }
            auto n = s.substr(b, p - b);
            r      = is_dbl ? mk_double(strtod(n.c_str(), nullptr)) : mk_int(strtoll(n.c_str(), nullptr, 10));
        }
        ws();
        return r;
    }
};

std::string spaced(const std::string& json, const std::string& ws)
{
    // Add blanks around all tokens
    std::string res;
    bool in_str = false, esc = false;
    for (char ch : json)
    {
        if (in_str)
        {
            res += ch;
            if (esc)
                esc = false;
            else if (ch == '\\')
                esc = true;
            else if (ch == '"')
                in_str = false;
        }
        else if (ch == '"')
            res += ch, in_str = true;
        else if (strchr("[]{},:", ch))
            res += ws + ch + ws;
        else
            res += ch;
    }
    return ws + res + ws;
}

void json_case(Ctx& c, const Val& v, bool all)
{
    c.eval(), c.states();
    auto exp = v.repr();
    std::stringstream out;
    arki::structured::JSON json(out);
    v.emit(json);
    auto text = out.str();
    Strict s(text);
    auto got = s.value();
    if (s.p != text.size())
        s.bad("end");
    if (got.repr() != exp)
        throw mc::Fail("json-write", exp + " is written as " + quote(text));
    c.distinct(text);
    auto check = [&](const std::string& kind, std::function<void(arki::structured::Emitter&)> parse) {
        arki::structured::Memory mem;
        try
        {
            parse(mem);
        }
        catch (std::exception& e)
        {
            throw mc::Fail("json-parse", kind + ", " + quote(text) + " cannot be read: " + e.what());
        }
        auto got = from_reader(mem.root()).repr();
        if (got != exp)
            throw mc::Fail("json-parse", kind + ", " + quote(text) + " is read as " + got);
        // Going through memory
    };
    check("text", [&](auto& e) { arki::structured::JSON::parse(text, e); });
    check("with spaces", [&](auto& e) { arki::structured::JSON::parse(spaced(text, " "), e); });
    check("with newlines", [&](auto& e) { arki::structured::JSON::parse(spaced(text, "\n \t\r"), e); });
    if (!all)
        return;
    all_readers<BufferedReader>(text, [&](const std::string& kind, BufferedReader& r) { check(kind, [&](auto& e) { arki::structured::JSON::parse(r, e); }); });
    // Text that is cut is not read as something else, except for numbers
    if (v.kind == Val::LIST || v.kind == Val::MAP || v.kind == Val::STRING)
        for (size_t l = 0; l < text.size(); ++l)
        {
            arki::structured::Memory mem;
            try
            {
                arki::structured::JSON::parse(text.substr(0, l), mem);
            }
            catch (std::exception&)
            {
                continue;
            }
            throw mc::Fail("json-cut", quote(text) + " cut to " + std::to_string(l) + " is accepted");
        }
}

std::vector<Val> scalars()
{
    std::vector<Val> r{mk(Val::NIL), mk_bool(true), mk_bool(false)};
    for (long long i : {0LL, 1LL, -1LL, 9LL, 10LL, 2147483647LL, -2147483648LL, 4294967296LL, 9223372036854775807LL, (long long)(-9223372036854775807LL - 1)})
        r.push_back(mk_int(i));
    for (double d : {0.0, 1.0, -1.0, 0.5, -0.1, 1.0 / 3, 1e10, 1e15, 1e16, 123456789.125, 1e100, 1e-7, -1e-300, 1.7976931348623157e308, 4.9e-324, 0.1 + 0.2, 999999999999999.0, -1e15, 11.25, 45.123456, 100000.5, 1234567.5})
        r.push_back(mk_double(d));
    for (auto s : {"", "a", "null", "a b", "\"", "\\", "/", "\n", "[", "}", "\xc3\xa8", "\x7f", "a\"b\\c"})
        r.push_back(mk_str(s));
    return r;
}

void json_strings(Ctx& c, const std::string& task)
{
    // task is strings|LEN
    unsigned len = std::stoul(split(task, '|')[1]);
    std::string alpha;
    for (int i = 0; i < 256; ++i)
        if (len <= 1 || strchr("\"\\/bfnrtu0a\n\t\x01\x1f \x7f\xc3\xff{[]},:", i) || i == 0)
            alpha += (char)i;
    unsigned total = 1;
    for (unsigned i = 0; i < len; ++i)
        total *= alpha.size();
    std::string v(len, 0);
    for (unsigned n = 0; n < total; ++n)
    {
        unsigned x = n;
        for (auto& ch : v)
            ch = alpha[x % alpha.size()], x /= alpha.size();
        c.current("JSON string " + quote(v));
        json_case(c, mk_str(v), len < 2);
        if (len < 3)
        {
            auto m = mk(Val::MAP);
            m.m[v] = mk_str(v);
            json_case(c, m, len < 2);
        }
    }
}

void json_trees(Ctx& c, const std::string& task)
{
    // task is trees|OUTER|N: containers of up to 2 (3) elements, two levels
    auto args  = split(task, '|');
    auto sc    = scalars();
    auto small = std::vector<Val>{sc[0], sc[1], sc[3], sc[7], mk_double(-0.1), mk_str(""), mk_str("a\"b\\c")};
    std::vector<Val> inner = small;
    // One level
    auto containers = [](const std::vector<Val>& el) {
        std::vector<Val> res{mk(Val::LIST), mk(Val::MAP)};
        for (auto& a : el)
        {
            auto l = mk(Val::LIST), m = mk(Val::MAP);
            l.l.push_back(a);
            m.m["k"] = a;
            res.push_back(l);
            res.push_back(m);
            for (auto& b : el)
            {
                auto l1 = l, m1 = m;
                l1.l.push_back(b);
                m1.m["j \"x"] = b;
                res.push_back(l1);
                res.push_back(m1);
            }
        }
        return res;
    };
    unsigned part = std::stoul(args[2]);
    auto one      = containers(args[1] == "flat" ? sc : small);
    if (args[1] == "flat")
    {
        if (part == 0)
            for (auto& v : sc)
                c.current("JSON " + v.repr()), json_case(c, v, true);
        for (size_t i = part; i < one.size(); i += 4)
        {
            c.current("JSON " + one[i].repr());
            json_case(c, one[i], true);
        }
        return;
    }
    // Two levels: one of the elements is a container
    for (size_t i = part; i < one.size(); i += 16)
        for (unsigned where = 0; where < 6; ++where)
            for (auto& o : small)
            {
                auto v = mk(where < 3 ? Val::LIST : Val::MAP);
                if (where < 3)
                {
                    if (where == 1)
                        v.l.push_back(o);
                    v.l.push_back(one[i]);
                    if (where == 2)
                        v.l.push_back(o);
                }
                else
                {
                    if (where == 4)
                        v.m["a"] = o;
                    v.m["b"] = one[i];
                    if (where == 5)
                        v.m["c"] = o;
                }
                c.current("JSON " + v.repr());
                json_case(c, v, false);
                // Three levels
                if (mc::args.thorough || o.kind == Val::NIL)
                {
                    auto w = mk(Val::LIST);
                    w.l.push_back(v);
                    w.l.push_back(v);
                    json_case(c, w, false);
                }
            }
}

void json_escapes(Ctx& c, const std::string&)
{
    // What other programs write
    auto parse = [](const std::string& s) {
        arki::structured::Memory mem;
        arki::structured::JSON::parse(s, mem);
        return from_reader(mem.root()).repr();
    };
    auto utf8 = [](unsigned code) {
        std::string r;
        if (code < 0x80)
            r += (char)code;
        else if (code < 0x800)
            r += (char)(0xc0 + code / 64), r += (char)(0x80 + code % 64);
        else if (code < 0x10000)
            r += (char)(0xe0 + code / 4096), r += (char)(0x80 + code / 64 % 64), r += (char)(0x80 + code % 64);
        else
            r += (char)(0xf0 + code / 262144), r += (char)(0x80 + code / 4096 % 64), r += (char)(0x80 + code / 64 % 64), r += (char)(0x80 + code % 64);
        return r;
    };
    for (unsigned code = 0; code < 0x110000; code += (code < 0x900 ? 1 : code < 0x11000 ? 0xf : 0xfff))
    {
        if (code >= 0xd800 && code < 0xe000)
            continue;
        c.eval(), c.states();
        char buf[32];
        for (auto fmt : {"\\u%04x", "\\u%04X"})
        {
            std::string s;
            if (code < 0x10000)
                snprintf(buf, 32, fmt, code), s = buf;
            else
            {
                snprintf(buf, 32, fmt, 0xd800 + ((code - 0x10000) >> 10)), s = buf;
                snprintf(buf, 32, fmt, 0xdc00 + ((code - 0x10000) & 0x3ff)), s += buf;
            }
            c.current("JSON escape " + s);
            auto exp = mk_str("x" + utf8(code) + "y").repr();
            auto got = parse("\"x" + s + "y\"");
            if (got != exp)
                c.fail("json-escape", s + " is read as " + got);
        }
    }
    for (auto bad : {"", " ", "nul", "tru", "fals", "x", "\"", "\"\\", "\"\\u12\"", "\"\\u12g4\"", "{a:1}", "{\"a\" 1}", "{1:2}", "[1", "{\"a\":1", "{\"a\":", "{\"a\"", "{", "[", "nulL", "\"\\ud800\"", "\"\\ud800\\u0041\"", "?"})
    {
        c.current(std::string("JSON ") + bad);
        c.eval(), c.states();
        try
        {
            auto got = parse(bad);
            c.fail("json-accepted", std::string("'") + bad + "' is read as " + got);
        }
        catch (std::exception&)
        {
        }
    }
    for (auto& d : std::map<std::string, std::string>{{"1e3", "1000d"}, {"1E+2", "100d"}, {"-1.5e-1", "-0.15d"}, {"0.25", "0.25d"}, {"-0", "0"}, {"12", "12"}, {"[1,2 , 3]", "[1,2,3,]"}})
    {
        c.current("JSON number " + d.first);
        c.eval(), c.states();
        auto got = parse(d.first);
        auto exp = d.second == "-0.15d" ? mk_double(-0.15).repr() : d.second;
        if (got != exp)
            c.fail("json-number", d.first + " is read as " + got);
    }
}

/*
 * Encodings of strings
 */

void codecs(Ctx& c, const std::string& task)
{
    // task is codecs|LEN
    unsigned len = std::stoul(split(task, '|')[1]);
    std::string alpha;
    for (int i = 0; i < 256; ++i)
        if (len <= 1 || (len == 2 && i % 3 == 0) || i == 0 || strchr("\"\\%+ a0fFx\n\t\x01\x7f\x80\xff/=&?zZ9", i))
            alpha += (char)i;
    unsigned total = 1;
    for (unsigned i = 0; i < len; ++i)
        total *= alpha.size();
    std::string v(len, 0);
    for (unsigned n = 0; n < total; ++n)
    {
        unsigned x = n;
        for (auto& ch : v)
            ch = alpha[x % alpha.size()], x /= alpha.size();
        for (auto tail : {"", "0", "a"})
        {
            std::string s = v + tail;
            if (*tail && len > 2)
                continue;
            c.current("encoding of " + quote(s));
            c.eval(), c.states();
            auto u = str::encode_url(s);
            for (char ch : u)
                if (!isalnum((unsigned char)ch) && !strchr("-_!*'()%.~", ch))
                    throw mc::Fail("url", quote(s) + " is encoded as " + quote(u));
            if (str::decode_url(u) != s)
                throw mc::Fail("url", quote(s) + " is encoded as " + u + ", decoded as " + quote(str::decode_url(u)));
            auto b = str::encode_base64(s);
            // Reference encoding
            static const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            std::string ref;
            for (size_t i = 0; i < s.size(); i += 3)
            {
                unsigned bits = 0;
                for (size_t j = 0; j < 3; ++j)
                    bits = bits * 256 + (i + j < s.size() ? (unsigned char)s[i + j] : 0);
                for (size_t j = 0; j < 4; ++j)
                    ref += i + j <= s.size() ? B[bits >> (18 - 6 * j) & 63] : '=';
            }
            if (b != ref || str::encode_base64(s.data(), s.size()) != ref)
                throw mc::Fail("base64", quote(s) + " is encoded as " + b + " instead of " + ref);
            if (str::decode_base64(b) != s)
                throw mc::Fail("base64", b + " is decoded as " + quote(str::decode_base64(b)));
            auto e = str::encode_cstring(s);
            for (char ch : e)
                if ((unsigned char)ch < 0x20 || ch == 0x7f)
                    throw mc::Fail("cstring", quote(s) + " is encoded as " + quote(e));
            for (auto after : {"", "\"", "\"x\""})
            {
                size_t parsed = 0;
                auto d        = str::decode_cstring(e + after, parsed);
                if (d != s || parsed != e.size() + (*after ? 1 : 0))
                    throw mc::Fail("cstring", quote(s) + " is encoded as " + e + ", decoded as " + quote(d) + " of length " + std::to_string(parsed));
            }
            c.distinct(u);
        }
    }
}

mc::Register r("C24", [] {
    mc::ds::init();
    bool t = args.thorough;
    std::vector<std::string> tasks;
    for (unsigned l = 0; l <= (t ? 7u : 5u); ++l)
        tasks.push_back("lines|" + std::to_string(l));
    for (long n : {1, 4095, 4096, 4097, 65529, 65530, 65531, 65534, 65535, 65536, 65537, 131071, 131072, 131073})
        tasks.push_back("lines|big|" + std::to_string(n));
    run_tasks(tasks, lines, "lines|");
    tasks.clear();
    for (unsigned f = 0; f < 12; ++f)
        for (unsigned l = 0; l <= (t ? 5u : 4u); ++l)
            tasks.push_back("line|" + std::to_string(f) + "|" + std::to_string(l));
    run_tasks(tasks, conf_line, "line|");
    tasks.clear();
    for (unsigned f = 0; f < 16; ++f)
        for (unsigned l = 0; l <= (t ? 4u : 3u); ++l)
            tasks.push_back("doc|" + std::to_string(f) + "|" + std::to_string(l));
    run_tasks(tasks, conf_doc, "doc|");
    tasks.clear();
    for (unsigned l = 0; l <= (t ? 5u : 4u); ++l)
        tasks.push_back("values|" + std::to_string(l));
    run_tasks(tasks, conf_values, "values|");
    run_tasks({"bool|"}, conf_bool, "bool|");
    run_tasks({"paths|"}, conf_paths, "paths|");
    tasks.clear();
    for (unsigned l = 0; l <= (t ? 4u : 3u); ++l)
        tasks.push_back("strings|" + std::to_string(l));
    run_tasks(tasks, json_strings, "strings|");
    tasks.clear();
    for (unsigned i = 0; i < 4; ++i)
        tasks.push_back("trees|flat|" + std::to_string(i));
    for (unsigned i = 0; i < 16; ++i)
        tasks.push_back("trees|deep|" + std::to_string(i));
    run_tasks(tasks, json_trees, "trees|");
    run_tasks({"escapes|"}, json_escapes, "escapes|");
    tasks.clear();
    for (unsigned l = 0; l <= (t ? 4u : 3u); ++l)
        tasks.push_back("codecs|" + std::to_string(l));
    run_tasks(tasks, codecs, "codecs|");
});

} // namespace
