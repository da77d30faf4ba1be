// A component that runs sequences of calls on a part of the core and writes
// down what the calls returned.  Input: $VF_IN, a JSON list of sequences, each
// a list of calls.  Output: $VF_RES, a list of the same shape.
#ifndef VFAPI_H
#define VFAPI_H
#include <sst/core/sst_config.h>
#include <sst/core/component.h>
#include <nlohmann/json.hpp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>

using json = nlohmann::json;

#define VF_DRIVER(LIB, FUN)                                                                                    \
    class VfDriver : public SST::Component                                                                     \
    {                                                                                                          \
    public:                                                                                                    \
        SST_ELI_REGISTER_COMPONENT(VfDriver, LIB, "Drive", SST_ELI_ELEMENT_VERSION(1, 0, 0), "driver",         \
            COMPONENT_CATEGORY_UNCATEGORIZED)                                                                  \
        VfDriver(SST::ComponentId_t id, SST::Params& p) : SST::Component(id)                                   \
        {                                                                                                      \
            if ( p.find<bool>("idle", false) ) return;                                                         \
            std::ifstream in(getenv("VF_IN"));                                                                 \
            json          seqs = json::parse(in);                                                              \
            std::ofstream out(getenv("VF_RES"));                                                               \
            out << "[";                                                                                        \
            bool first = true;                                                                                 \
            for ( auto& s : seqs ) {                                                                           \
                out << (first ? "" : ",\n") << FUN(s).dump();                                                  \
                out.flush();                                                                                   \
                first = false;                                                                                 \
            }                                                                                                  \
            out << "]\n";                                                                                      \
        }                                                                                                      \
        void init(unsigned) override {}                                                                        \
    };
#endif
