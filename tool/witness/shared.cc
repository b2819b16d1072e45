// Forces the bodies of class templates that the core itself does not instantiate, so that they can be analysed.
#include "sst_config.h"

#include <cstdlib>

#include "sst/core/interprocess/circularBuffer.h"
#include "sst/core/interprocess/tunneldef.h"
#include "sst/core/serialization/serialize.h"
#include "sst/core/serialization/serializer.h"
#include "sst/core/shared/sharedArray.h"
#include "sst/core/shared/sharedMap.h"
#include "sst/core/shared/sharedSet.h"
#include "sst/core/sparseVectorMap.h"
#include "sst/core/threadsafe.h"

struct WitnessData
{
    int x;
};

template class SST::Shared::SharedMap<int, int>;
template class SST::Shared::SharedArray<int>;
template class SST::Shared::SharedArray<bool>;
template class SST::Shared::SharedSet<int>;
template class SST::Core::Interprocess::CircularBuffer<int>;
template class SST::Core::Interprocess::TunnelDef<WitnessData, int>;
template class SST::Core::ThreadSafe::BoundedQueue<int>;
template class SST::Core::ThreadSafe::UnboundedQueue<int>;
