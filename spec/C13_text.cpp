// The texts of a header are those set, as long as they fit their fields
//@ result
#include "spec.hpp"
#include <copc-lib/las/header.hpp>
using namespace copc;
using namespace copc::las;
using namespace spec;
// texts of a header
struct Text
{
    std::string guid, system, software;
};
#define TEXT(name, acc, field, n)                                                                                      \
    Text lhs_##name(const Text &t, const std::string &s)                                                               \
    {                                                                                                                  \
        LasHeader h;                                                                                                   \
        assume(t.guid.size() <= 16 && t.system.size() <= 32 && t.software.size() <= 32);                               \
        h.GUID(t.guid);                                                                                                \
        h.SystemIdentifier(t.system);                                                                                  \
        h.GeneratingSoftware(t.software);                                                                              \
        try                                                                                                            \
        {                                                                                                              \
            h.acc(s);                                                                                                  \
        }                                                                                                              \
        catch (std::exception &)                                                                                       \
        {                                                                                                              \
        }                                                                                                              \
        return {h.GUID(), h.SystemIdentifier(), h.GeneratingSoftware()};                                               \
    }                                                                                                                  \
    Text rhs_##name(const Text &t, const std::string &s)                                                               \
    {                                                                                                                  \
        assume(t.guid.size() <= 16 && t.system.size() <= 32 && t.software.size() <= 32);                               \
        Text r = t;                                                                                                    \
        if (s.size() <= n)                                                                                             \
            r.field = s;                                                                                               \
        return r;                                                                                                      \
    }
TEXT(text_guid, GUID, guid, 16)
TEXT(text_system, SystemIdentifier, system, 32)
TEXT(text_software, GeneratingSoftware, software, 32)
