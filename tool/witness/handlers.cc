// Instantiates the handler templates for all kinds of handlers.
#include "sst_config.h"

#include "sst/core/clock.h"
#include "sst/core/event.h"
#include "sst/core/interfaces/simpleNetwork.h"
#include "sst/core/interfaces/stdMem.h"
#include "sst/core/oneshot.h"
#include "sst/core/serialization/serialize.h"

namespace witness {

struct Target
{
    void event(SST::Event*) {}
    void event_data(SST::Event*, int) {}
    bool clock(SST::Cycle_t) { return false; }
    bool clock_data(SST::Cycle_t, int) { return false; }
    void shot() {}
    void shot_data(int) {}
    bool net(int) { return true; }
    bool net_data(int, int) { return true; }
    void mem(SST::Interfaces::StandardMem::Request*) {}
    void mem_data(SST::Interfaces::StandardMem::Request*, int) {}
    void serialize_order(SST::Core::Serialization::serializer&) {}
};

void
handlers(Target* t)
{
    new SST::Event::Handler<Target, &Target::event>(t);
    new SST::Event::Handler<Target, &Target::event_data, int>(t, 1);
    new SST::Clock::Handler<Target, &Target::clock>(t);
    new SST::Clock::Handler<Target, &Target::clock_data, int>(t, 1);
    new SST::OneShot::Handler<Target, &Target::shot>(t);
    new SST::OneShot::Handler<Target, &Target::shot_data, int>(t, 1);
    new SST::Interfaces::SimpleNetwork::Handler<Target, &Target::net>(t);
    new SST::Interfaces::SimpleNetwork::Handler<Target, &Target::net_data, int>(t, 1);
    new SST::Interfaces::StandardMem::Handler<Target, &Target::mem>(t);
    new SST::Interfaces::StandardMem::Handler<Target, &Target::mem_data, int>(t, 1);
}

} // namespace witness
