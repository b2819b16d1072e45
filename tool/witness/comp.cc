// Instantiates the component interface's templates, so that they can be analysed.
#include "sst_config.h"

#include "sst/core/component.h"
#include "sst/core/subcomponent.h"

#include <cstdint>

namespace verif_witness {

class WitnessSub : public SST::SubComponent
{
public:
    SST_ELI_REGISTER_SUBCOMPONENT_API(verif_witness::WitnessSub)

    explicit WitnessSub(SST::ComponentId_t id) :
        SST::SubComponent(id)
    {}
};

class WitnessComp : public SST::Component
{
public:
    explicit WitnessComp(SST::ComponentId_t id) :
        SST::Component(id)
    {
        SST::Params p;
        registerStatistic<uint64_t>("a");
        registerStatistic<uint64_t>(p, "b", "s");
        registerMultiStatistic<uint64_t, double>("c");
        loadUserSubComponent<WitnessSub>("slot", SST::ComponentInfo::SHARE_NONE);
        loadAnonymousSubComponent<WitnessSub>("type", "slot", 0, SST::ComponentInfo::SHARE_NONE, p);
    }
};

SST::Component*
make(SST::ComponentId_t id)
{
    return new WitnessComp(id);
}

} // namespace verif_witness
