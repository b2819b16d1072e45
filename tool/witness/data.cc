// Serialisable classes of the public headers that no source file of the core includes.
#include "sst_config.h"

#include "sst/core/interfaces/stringEvent.h"
#include "sst/core/interfaces/stdMem.h"
#include "sst/core/interfaces/simpleNetwork.h"
#include "sst/core/rng/constant.h"
#include "sst/core/rng/discrete.h"
#include "sst/core/rng/expon.h"
#include "sst/core/rng/gaussian.h"
#include "sst/core/rng/marsaglia.h"
#include "sst/core/rng/mersenne.h"
#include "sst/core/rng/poisson.h"
#include "sst/core/rng/uniform.h"
#include "sst/core/rng/xorshift.h"

namespace witness {

void
uses(SST::Core::Serialization::serializer& ser)
{
    SST::RNG::ConstantDistribution* a = nullptr;
    SST::RNG::DiscreteDistribution* b = nullptr;
    SST::RNG::ExponentialDistribution* c = nullptr;
    SST::RNG::GaussianDistribution* d = nullptr;
    SST::RNG::PoissonDistribution* e = nullptr;
    SST::RNG::UniformDistribution* f = nullptr;
    SST::Interfaces::StringEvent* g = nullptr;
    SST_SER(a);
    SST_SER(b);
    SST_SER(c);
    SST_SER(d);
    SST_SER(e);
    SST_SER(f);
    SST_SER(g);
}

} // namespace witness
