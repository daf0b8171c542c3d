// A dataset on disk, a reference model of what it should contain, and the
// operations that can be done on it.
#ifndef MC_DS_H
#define MC_DS_H
#include "mc.h"
#include "mcdata.h"
#include <arki/core/cfg.h>
#include <arki/dataset.h>
#include <arki/dataset/fwd.h>
#include <arki/dataset/reporter.h>
#include <arki/metadata/collection.h>
#include <arki/metadata/inbound.h>
#include <filesystem>

namespace mc::ds {
using namespace arki;

struct Conf
{
    std::string type  = "iseg";
    DataFormat format = DataFormat::GRIB;
    std::string step  = "daily";
    std::string unique;
    std::string index;
    std::string replace;
    bool smallfiles = false;
    bool dirs       = false; // one file per data item
    bool nolock     = false;
    bool eatmydata  = false;
    int archive_age = -1;
    int delete_age  = -1;
    int gz          = -1; // gz group size
    bool aged       = false; // time passes between operations

    static Conf parse(const std::string& s);
    std::string str() const;
    std::shared_ptr<core::cfg::Section> section(const std::string& root, const std::string& name = "ds") const;
    std::string key(const Msg& m) const;      // what makes m unique
    std::string segment(const Msg& m) const;  // where m goes
};

/// Message number i of the alphabet of conf
Msg msg(const Conf& conf, unsigned i);
/// Instant taken as the present
time_t now();
void set_now(const std::string& t);

/// Everything that a reporter gets told
struct Recorder : public dataset::Reporter
{
    std::vector<std::string> log;
    void add(const std::string& what, const std::string& where, const std::string& msg) { log.push_back(what + "|" + where + "|" + msg); }
    void operation_progress(const std::string&, const std::string& o, const std::string& m) override { add("progress", o, m); }
    void operation_manual_intervention(const std::string&, const std::string& o, const std::string& m) override { add("opmanual", o, m); }
    void operation_aborted(const std::string&, const std::string& o, const std::string& m) override { add("aborted", o, m); }
    void operation_report(const std::string&, const std::string& o, const std::string& m) override { add("report", o, m); }
    void segment_info(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("info", p, m); }
    void segment_repack(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("repack", p, m); }
    void segment_archive(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("archive", p, m); }
    void segment_remove(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("remove", p, m); }
    void segment_deindex(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("deindex", p, m); }
    void segment_rescan(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("rescan", p, m); }
    void segment_tar(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("tar", p, m); }
    void segment_compress(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("compress", p, m); }
    void segment_issue51(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("issue51", p, m); }
    void segment_manual_intervention(const std::string&, const std::filesystem::path& p, const std::string& m) override { add("manual", p, m); }
    /// Reports that a problem was found in a segment
    bool has(const std::string& what) const;
    /// Everything but the final report
    std::vector<std::string> actions() const;
};

struct World
{
    Conf conf;
    std::string root;
    std::shared_ptr<dataset::Session> session;
    std::shared_ptr<dataset::Dataset> ds;

    World(const Conf& conf, const std::string& root);
    std::shared_ptr<dataset::Reader> reader() { return ds->create_reader(); }
    std::shared_ptr<dataset::Writer> writer() { return ds->create_writer(); }
    std::shared_ptr<dataset::Checker> checker() { return ds->create_checker(); }
};

/// Reference model: what the dataset holds, by segment
struct Model
{
    std::map<std::string, std::vector<Msg>> online;
    std::map<std::string, std::vector<Msg>> archived;
    // Segments where deleted data is still on disk
    std::set<std::string> unpacked, unpacked_archived;
    bool uncertain = false; // after an operation refused by the code

    std::vector<Msg> all() const;
    std::string str() const;
    /// Import m as told by conf and strategy, and tell the expected result:
    /// K stored, D duplicate, E error, X safely discarded
    char import(const Conf& conf, const Msg& m, const std::string& strategy, DataFormat first_format);
    void replay(const Conf& conf, const std::vector<std::string>& ops);
    bool apply(const Conf& conf, const std::string& op);
};

struct Got
{
    std::string data;
    std::string items; // items of the metadata, as text
    std::string t;
    std::string src;
    std::string file;
    bool operator<(const Got& o) const { return std::tie(data, items) < std::tie(o.data, o.items); }
    bool operator==(const Got& o) const { return data == o.data && items == o.items; }
};

/// Items of a metadata that do not depend on where the data is stored
std::string items(const Metadata& md);
/// Result of a query
std::vector<Got> query(dataset::Reader& r, const std::string& q, bool with_data = true, const std::string& sort = "");
std::string query_bytes(dataset::Reader& r, const std::string& q, const std::string& sort = "");

struct Sum
{
    uint64_t count = 0, size = 0;
    std::string begin, end;
    bool operator==(const Sum& o) const { return count == o.count && size == o.size && begin == o.begin && end == o.end; }
};
typedef std::map<std::string, Sum> SumMap;
SumMap summarise(const Summary& s);
SumMap expected_summary(const std::vector<Msg>& msgs);
std::string str(const SumMap& s);

/// A query and its meaning
struct Q
{
    std::string expr;
    std::function<bool(const Msg&)> match;
    bool exact_summary = true; // summaries can be told apart
    bool span          = true; // it selects one span of time
};
std::vector<Q> queries(const Conf& conf);

enum VerifyFlags {
    V_DATA    = 1,
    V_SUMMARY = 2,
    V_BYTES   = 4,
    V_SORT    = 8,
    V_ALLQ    = 16,
    V_NODATA  = 32,
    V_INTERVAL = 64,
    V_REUSE   = 128, // one reader for all queries
    V_ALL     = 127,
};

/// Compare what can be seen in the dataset with what should be there. Throws
/// mc::Fail
void verify(World& w, const std::vector<Msg>& expected, unsigned flags, const std::string& what);
/// What is in the dataset, as messages
std::vector<Msg> visible(World& w);
std::string describe(const std::vector<Msg>& msgs);

struct Applied
{
    bool threw = false;
    std::string error;
    std::string results; // result of import, one char per item
    Recorder rec;
    std::vector<std::string> destinations;
};
/// Do an operation on the dataset
Applied apply(World& w, const std::string& op);
/// Messages named in an import or delete operation
std::vector<unsigned> op_msgs(const std::string& op);

/// Normalised contents of the tree
std::string state_digest(const std::string& root);
/// Make all files look like they were changed earlier
void age(const std::string& root, int seconds = 100);
/// Name of the file or directory that stores a segment, if any
std::string layout(const std::string& root, const std::string& relpath);

/// State of each segment, as found by the checker
std::map<std::string, std::string> states(World& w, bool accurate = false);

/// Silence messages and the like
void init();

} // namespace mc::ds
#endif
