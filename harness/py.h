// The real Python code, in an embedded interpreter
#ifndef MC_PY_H
#define MC_PY_H
#include <Python.h>
#include "common_ds.h"
#include <algorithm>
#include <arki/core/file.h>
#include <arki/dataset/pool.h>
#include <arki/dataset/merged.h>
#include <arki/dataset/reporter.h>
#include <arki/dataset/session.h>
#include <arki/dataset/time.h>
#include <arki/matcher.h>
#include <arki/matcher/parser.h>
#include <arki/metadata.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/data.h>
#include <arki/metadata/reader.h>
#include <arki/nag.h>
#include <arki/python/cmdline/processor.h>
#include <arki/python/dataset/progress.h>
#include <arki/query.h>
#include <arki/segment.h>
#include <arki/metadata/sort.h>
#include <arki/structured/json.h>
#include <arki/structured/keys.h>
#include <arki/structured/memory.h>
#include <arki/stream.h>
#include <arki/summary.h>
#include <arki/summary/short.h>
#include <arki/types/source.h>
#include <arki/types/source/blob.h>
#include <arki/types/values.h>
#include <fcntl.h>
#include <filesystem>
#include <sys/wait.h>
#include <unistd.h>

using namespace mc;
using namespace mc::ds;
namespace fs = std::filesystem;
using arki::python::cmdline::ProcessorMaker;

extern "C" PyObject* PyInit__arkimet();

// What needs libraries that are not here
namespace meteo::vm2 {
class Source;
}
namespace arki::python {
void register_arki_bufr_prepare(PyObject*) {}
} // namespace arki::python
namespace arki::utils::vm2 {
arki::types::ValueBag get_station(int, meteo::vm2::Source*) { throw std::runtime_error("not available"); }
arki::types::ValueBag get_variable(int, meteo::vm2::Source*) { throw std::runtime_error("not available"); }
} // namespace arki::utils::vm2

namespace {

std::string repo()
{
    const char* r = getenv("ARKI_REPO");
    return r ? r : "/repo";
}

const char* START = R"(
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, mc_path)
import _arkimet
_arkimet.cmdline.ArkiBUFRPrepare = object
import arkimet
import arkimet.cmdline.query, arkimet.cmdline.check, arkimet.cmdline.scan
import arkimet.cmdline.dump, arkimet.cmdline.xargs, arkimet.cmdline.mergeconf
import traceback
mc_tools = {
    "arki-query": arkimet.cmdline.query.Query,
    "arki-check": arkimet.cmdline.check.Check,
    "arki-scan": arkimet.cmdline.scan.Scan,
    "arki-dump": arkimet.cmdline.dump.Dump,
    "arki-xargs": arkimet.cmdline.xargs.Xargs,
    "arki-mergeconf": arkimet.cmdline.mergeconf.Mergeconf,
}

def mc_main(tool, args):
    # As in the scripts: sys.exit(Tool.main())
    sys.argv = [tool] + args
    try:
        rc = mc_tools[tool].main(args)
        if rc is None:
            rc = 0
        elif not isinstance(rc, int):
            rc = 1
    except SystemExit as e:
        rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except (RuntimeError, OSError, ValueError):
        traceback.print_exc()
        rc = 1
    except BaseException:
        # Anything else is a mistake in the program
        traceback.print_exc()
        rc = 99
    try:
        sys.stdout.flush()
    except OSError:
        rc = 120
    try:
        sys.stderr.flush()
    except OSError:
        pass
    return int(rc) & 0xff
)";

PyObject* mc_main = nullptr;

void start_python(const char* more = nullptr)
{
    if (mc_main)
        return;
    setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
    unsetenv("PYTHONPATH");
    PyImport_AppendInittab("_arkimet", &PyInit__arkimet);
    Py_InitializeEx(0);
    auto main = PyModule_GetDict(PyImport_AddModule("__main__"));
    auto path = PyUnicode_FromString((repo() + "/python").c_str());
    PyDict_SetItemString(main, "mc_path", path);
    if (PyRun_SimpleString(START) != 0)
        throw std::runtime_error("cannot load the Python code");
    if (more && PyRun_SimpleString(more) != 0)
        throw std::runtime_error("cannot load more Python code");
    mc_main = PyDict_GetItemString(main, "mc_main");
}

// The library starts threads, that may need Python code
struct ReleaseGIL
{
    PyThreadState* s = PyEval_SaveThread();
    ~ReleaseGIL() { PyEval_RestoreThread(s); }
};

typedef std::vector<std::string> Args;

Args operator+(Args a, const Args& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

std::string tail(const std::string& s) { return quote(s.size() > 300 ? s.substr(s.size() - 300) : s); }

std::string first_difference(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    size_t from = i > 30 ? i - 30 : 0;
    return cat("at ", i, " of ", a.size(), "/", b.size(), ": ", quote(a.substr(from, 80)), " instead of ", quote(b.substr(from, 80)));
}

void import(World& w, const std::vector<Msg>& msgs)
{
    auto o = dataset::SessionTime::local_override(now());
    for (auto& m : msgs)
    {
        metadata::InboundBatch batch;
        batch.add(m.inlined());
        dataset::AcquireConfig cfg;
        auto wr = w.writer();
        wr->acquire_batch(batch, cfg);
        wr->flush();
        if (batch[0]->result != metadata::Inbound::Result::OK)
            throw mc::Fail("import", "cannot import " + m.id());
    }
}

// Caches can change
std::string data_digest(const std::string& root)
{
    std::string res;
    for (auto& i : tree_contents(root))
        if (i.first.find(".summar") == std::string::npos && fs::path(i.first).filename() != "summary" && i.first.find(".index-") == std::string::npos)
            res += cat(i.first, " ", mc::hash(i.second), "\n");
    return res;
}

// The order of summaries depends on memory addresses, and their compressed form
// on what was compressed before
std::string comparable(const std::string& s, bool summary)
{
    if (!summary)
        return s;
    if (s.compare(0, 2, "SU") == 0)
    {
        spew(scratch() + "/summary", s);
        Summary sum;
        sum.read_file(scratch() + "/summary");
        return comparable(sum.to_yaml(), true);
    }
    std::string res, one;
    std::vector<std::string> pieces;
    for (char c : s)
    {
        one += c;
        if (c == '\n' || c == '}' || c == '{' || c == ',')
        {
            pieces.push_back(one);
            one.clear();
        }
    }
    pieces.push_back(one);
    std::sort(pieces.begin(), pieces.end());
    return join(pieces, "");
}

} // namespace
#endif
