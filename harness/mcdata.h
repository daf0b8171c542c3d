// Data used by the harnesses: small messages whose bytes determine their
// metadata, so that scanning stored data always reproduces it.
#ifndef MCDATA_H
#define MCDATA_H
#include <arki/core/time.h>
#include <arki/defs.h>
#include <arki/metadata/fwd.h>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace mc {

struct Msg
{
    arki::DataFormat format = arki::DataFormat::GRIB;
    std::string t           = "2020-01-01T00:00:00Z"; // reference time
    unsigned p              = 1;                      // product
    unsigned a              = 1;                      // area
    unsigned l              = 0;                      // level
    int u                   = -1;                     // USN, BUFR only
    std::string fill;                                 // payload

    std::string bytes() const;
    /// Metadata with reftime, product, area, level... and no source
    std::shared_ptr<arki::Metadata> meta() const;
    /// Metadata with an inline source holding the data
    std::shared_ptr<arki::Metadata> inlined() const;
    static bool parse(arki::DataFormat format, const std::string& buf, Msg& out);
    std::string id() const;
};

std::shared_ptr<arki::Metadata> make_inline(arki::DataFormat format, const std::string& bytes);

void install_scanners();

} // namespace mc
#endif
