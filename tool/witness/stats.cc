// Instantiates the data-collection interface of statistics for every basic type, so that it can be analysed.
#include "sst_config.h"

#include "sst/core/statapi/stataccumulator.h"
#include "sst/core/statapi/statbase.h"
#include "sst/core/statapi/stathistogram.h"
#include "sst/core/statapi/statnull.h"
#include "sst/core/statapi/statuniquecount.h"

#include <cstdint>

namespace verif_witness {

template <class T>
void
use(SST::Statistics::Statistic<T>& s, uint64_t n, T v)
{
    s.addData(v);
    s.addDataNTimes(n, v);
}

template void use(SST::Statistics::Statistic<int32_t>&, uint64_t, int32_t);
template void use(SST::Statistics::Statistic<uint32_t>&, uint64_t, uint32_t);
template void use(SST::Statistics::Statistic<int64_t>&, uint64_t, int64_t);
template void use(SST::Statistics::Statistic<uint64_t>&, uint64_t, uint64_t);
template void use(SST::Statistics::Statistic<float>&, uint64_t, float);
template void use(SST::Statistics::Statistic<double>&, uint64_t, double);

} // namespace verif_witness
