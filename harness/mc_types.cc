// Metadata items: all the encodings of all the items of a grid, and the order
// of all their pairs
#include "mc.h"
#include "typegrid.h"
#include <algorithm>
#include <arki/runtime.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <cstring>
#include <sys/mman.h>

using namespace mc;
using namespace arki;
using namespace arki::types;

namespace {

Code code_of(const std::string& name)
{
    for (auto& c : typegrid::all_codes())
        if (name == c.second)
            return c.first;
    throw std::runtime_error("unknown type " + name);
}

void need(const Type& want, const std::unique_ptr<Type>& got, const char* key)
{
    if (!got)
        throw Fail(key, cat("nothing read from ", quote(want.to_string())));
    if (got->type_code() != want.type_code() || !want.equals(*got) || !got->equals(want) || want.compare(*got) != 0 || got->compare(want) != 0)
        throw Fail(key, cat(want.tag(), " ", quote(want.to_string()), " became ", quote(got->to_string())));
    // The contents, too: items can be equal without being the same
    if (want.encodeBinary() != got->encodeBinary())
        throw Fail(key, cat(want.tag(), " ", quote(want.to_string()), " has another encoding after: ", quote(got->to_string())));
}

// Leave out the first key and value of a mapping
struct WithoutTag : structured::Emitter
{
    structured::Emitter& out;
    unsigned seen = 0;
    WithoutTag(structured::Emitter& out) : out(out) {}
    void start_list() override { out.start_list(); }
    void end_list() override { out.end_list(); }
    void start_mapping() override { out.start_mapping(); }
    void end_mapping() override { out.end_mapping(); }
    void add_null() override { out.add_null(); }
    void add_bool(bool v) override { out.add_bool(v); }
    void add_int(long long int v) override { out.add_int(v); }
    void add_double(double v) override { out.add_double(v); }
    void add_time(const core::Time& v) override { out.add_time(v); }
    void add_string(const std::string& v) override
    {
        if (seen++ >= 2)
            out.add_string(v);
    }
};

void check_item(Ctx& c, const Type& t, typegrid::Text text)
{
    Code code = t.type_code();

    // Binary, followed by something else
    auto enc = t.encodeBinary();
    auto buf = enc;
    for (uint8_t b : {0x55, 0xaa, 0x00})
        buf.push_back(b);
    {
        core::BinaryDecoder dec(buf);
        need(t, Type::decode(dec), "binary");
        if (dec.size != 3)
            throw Fail("binary", cat(quote(t.to_string()), ": ", dec.size, " bytes are left after it instead of 3"));
    }
    std::vector<uint8_t> inner;
    core::BinaryEncoder ienc(inner);
    t.encodeWithoutEnvelope(ienc);
    for (bool reuse : {false, true})
    {
        core::BinaryDecoder dec(inner);
        need(t, Type::decode_inner(code, dec, reuse), "binary");
    }
    // What is decoded with a copy does not need the buffer
    {
        auto tmp = inner;
        core::BinaryDecoder dec(tmp);
        auto t2 = Type::decodeInner(code, dec);
        std::fill(tmp.begin(), tmp.end(), 0xff);
        need(t, t2, "binary");
    }
    {
        std::vector<uint8_t> idx;
        core::BinaryEncoder e(idx);
        t.encode_for_indexing(e);
        core::BinaryDecoder dec(idx);
        need(t, Type::decodeInner(code, dec), "index");
    }
    // Copies
    {
        auto t2 = t.cloneType();
        auto t3 = t2->cloneType();
        t2.reset();
        need(t, t3, "clone");
    }
    c.eval(6);

    // Text
    std::string txt = t.to_string();
    if (txt != t.to_string())
        throw Fail("text", cat(quote(txt), " is not always written the same"));
    std::unique_ptr<Type> from_text;
    try
    {
        from_text = decodeString(code, txt);
    }
    catch (std::exception& e)
    {
        if (text == typegrid::EXACT)
            throw Fail("text", cat(t.tag(), " ", quote(txt), " cannot be read back: ", e.what()));
    }
    if (text == typegrid::EXACT)
        need(t, from_text, "text");

    // Structured data. The python keys have a name in common for the tag of
    // the type and for a field: as in a Python dict, the last one counts.
    {
        structured::Memory mem;
        t.serialise(mem, structured::keys_json);
        need(t, decode_structure(structured::keys_json, mem.root()), "structured");
        need(t, decode_structure(structured::keys_json, code, mem.root()), "structured");
    }
    {
        structured::Memory mem;
        WithoutTag filter(mem);
        t.serialise(filter, structured::keys_python);
        need(t, decode_structure(structured::keys_python, code, mem.root()), "structured-python");
    }
    {
        std::stringstream out;
        structured::JSON json(out);
        t.serialise(json, structured::keys_json);
        structured::Memory mem;
        structured::JSON::parse(out.str(), mem);
        try
        {
            need(t, decode_structure(structured::keys_json, mem.root()), "json");
        }
        catch (Fail& e)
        {
            throw Fail(e.key, cat(e.what(), " as ", out.str()));
        }
    }
    c.eval(7);
}

// Values of the fields of an item, without tag and style
struct Fields : public structured::Emitter
{
    typegrid::SV res;
    std::vector<bool> in_map; // for each level, if it is a mapping
    bool is_key = false;
    std::string key;
    bool skip = false;

    void value(const std::string& v)
    {
        if (!in_map.empty() && in_map.back())
        {
            is_key = true;
            if (skip)
                return;
            res.push_back(in_map.size() == 1 ? v : key + "=" + v);
        }
        else
            res.push_back(v);
    }
    void start_list() override { in_map.push_back(false); }
    void end_list() override
    {
        in_map.pop_back();
        is_key = !in_map.empty() && in_map.back();
    }
    void start_mapping() override
    {
        in_map.push_back(true);
        is_key = true;
    }
    void end_mapping() override { end_list(); }
    void add_null() override { value("null"); }
    void add_bool(bool val) override { value(val ? "true" : "false"); }
    void add_int(long long int val) override { value(std::to_string(val)); }
    void add_double(double val) override { value(std::to_string(val)); }
    void add_string(const std::string& val) override
    {
        if (is_key && in_map.back())
        {
            key    = val;
            is_key = false;
            skip   = in_map.size() == 1 && (val == structured::keys_json.type_name || val == structured::keys_json.type_style);
        }
        else
            value("s" + val);
    }
};

void check_fields(const Type& t, const typegrid::SV& want)
{
    Fields f;
    t.serialise(f, structured::keys_json);
    if (f.res != want)
        throw Fail("fields", cat(quote(t.to_string()), " has fields ", quote(mc::join(f.res, " ")), " instead of ", quote(mc::join(want, " "))));
}

int sign(int i) { return i < 0 ? -1 : i > 0 ? 1 : 0; }

// The order of each pair has to be the order of the numbers of smaller items
void check_order(Ctx& c, const std::vector<typegrid::Item>& v)
{
    size_t n = v.size();
    std::vector<std::vector<uint8_t>> enc(n);
    std::vector<int8_t> cmp(n * n);
    std::vector<size_t> less(n, 0);
    for (size_t i = 0; i < n; ++i)
    {
        enc[i] = v[i]->encodeBinary();
        for (size_t j = 0; j < n; ++j)
        {
            cmp[i * n + j] = sign(v[i]->compare(*v[j]));
            less[i] += cmp[i * n + j] > 0;
        }
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
        {
            int r       = cmp[i * n + j];
            auto report = [&](const char* key, const std::string& what) { c.fail(cat(key, " ", v[i]->tag()), cat(quote(v[i]->to_string()), " and ", quote(v[j]->to_string()), ": ", what)); };
            if (r != -cmp[j * n + i])
                report("antisymmetry", cat("comparing them gives ", r, ", and ", (int)cmp[j * n + i], " the other way"));
            if (r != (less[i] < less[j] ? -1 : less[i] > less[j] ? 1 : 0))
                report("transitivity", cat("comparing them gives ", r, ", but the first is greater than ", less[i], " items and the second of ", less[j]));
            bool eq = v[i]->equals(*v[j]);
            if (eq != (r == 0))
                report("equality", cat("they are ", eq ? "" : "not ", "equal, but comparing them gives ", r));
            if ((*v[i] < *v[j]) != (r < 0) || (*v[i] <= *v[j]) != (r <= 0) || (*v[i] > *v[j]) != (r > 0) || (*v[i] >= *v[j]) != (r >= 0) || (*v[i] == *v[j]) != (r == 0) || (*v[i] != *v[j]) != (r != 0))
                report("operators", "operators do not agree with compare");
            // Different data is a different item
            bool same = enc[i] == enc[j];
            if (same && r)
                report("identity", "their encoding is the same but they differ");
            // Some items compare by meaning: the same time range in different
            // units, or the same dataset whatever the time of import
            if (!same && !r && v[i]->type_code() != TYPE_TIMERANGE && v[i]->type_code() != TYPE_ASSIGNEDDATASET)
                report("conflated", "they are different but they compare as equal");
        }
    c.eval(n * n);
    c.transitions(n * n);
}

void c19()
{
    init();
    note("items", "boundary values of all fields, all types and styles; strings with all byte values (thorough)");
    std::vector<std::string> tasks;
    for (auto& code : typegrid::all_codes())
    {
        size_t n = typegrid::grid(code.first, args.thorough).v.size();
        for (size_t i = 0; i < n; i += 500)
            tasks.push_back(cat("codec|", code.second, "|", i));
        size_t block = 1600;
        for (size_t i = 0; i < n; i += block)
            tasks.push_back(cat("order|", code.second, "|", i));
    }
    tasks.push_back("order|mixed|0");
    run_tasks(tasks, [](Ctx& c, const std::string& task) {
        auto f       = mc::split(task, '|');
        size_t start = std::stoul(f[2]);
        if (f[0] == "codec")
        {
            auto g = typegrid::grid(code_of(f[1]), args.thorough);
            for (size_t i = start; i < g.v.size() && i < start + 500; ++i)
            {
                c.current(g.v[i].item->tag() + " " + quote(g.v[i].item->to_string()));
                try
                {
                    check_item(c, *g.v[i].item, g.v[i].text);
                    if (!g.v[i].fields.empty())
                    {
                        check_fields(*g.v[i].item, g.v[i].fields);
                        c.eval();
                        c.extra(0);
                    }
                }
                catch (Fail& e)
                {
                    c.fail(cat(e.key, " ", f[1]), e.what());
                }
                catch (std::exception& e)
                {
                    c.fail(cat("error ", f[1]), cat(f[1], " ", quote(g.v[i].item->to_string()), ": ", e.what()));
                }
                c.states();
                c.distinct(f[1] + g.v[i].item->to_string());
            }
            return;
        }
        std::vector<typegrid::Item> v;
        if (f[1] == "mixed")
        {
            for (auto& code : typegrid::all_codes())
            {
                auto g = typegrid::grid(code.first, false);
                for (size_t i = 0; i < g.v.size(); i += 1 + g.v.size() / 60)
                    v.push_back(g.v[i].item);
            }
        }
        else
        {
            // A block with all of its pairs, and one element in each few of all the others
            auto g      = typegrid::grid(code_of(f[1]), args.thorough);
            size_t step = 1 + g.v.size() / 400;
            for (size_t i = 0; i < g.v.size(); ++i)
                if ((i >= start && i < start + 1600) || i % step == 0)
                    v.push_back(g.v[i].item);
        }
        c.current(task);
        check_order(c, v);
        c.states(v.size());
        c.sample(v[0]->to_string() + " .. " + v.back()->to_string());
    });
}
mc::Register r19("C19", c19);

} // namespace
