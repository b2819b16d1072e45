// Instantiates the parameter interface's templates, so that they can be analysed.
#include "sst_config.h"

#include "sst/core/params.h"
#include "sst/core/unitAlgebra.h"

#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace verif_witness {

template <class T>
void
numbers(SST::Params& p)
{
    bool f;
    (void)p.find<T>("k", T(1), f);
    (void)p.find<T>("k", std::string("1"), f);
    (void)p.find<T>("k", T(1));
    (void)p.find<T>("k", std::string("1"));
    (void)p.find<T>("k");
}

void
witness_params(SST::Params& p)
{
    bool f;
    numbers<int32_t>(p);
    numbers<int64_t>(p);
    numbers<uint8_t>(p);
    numbers<uint16_t>(p);
    numbers<uint32_t>(p);
    numbers<uint64_t>(p);
    numbers<long long>(p);
    numbers<unsigned long long>(p);
    numbers<float>(p);
    numbers<double>(p);
    numbers<bool>(p);
    (void)p.find<bool>("k", "true", f);
    (void)p.find<bool>("k", "true");
    (void)p.find<int>("k", f);
    (void)p.find<std::string>("k", "x", f);
    (void)p.find<std::string>("k", "x");
    (void)p.find<std::string>("k");
    (void)p.find<SST::UnitAlgebra>("k", "1ns", f);
    (void)p.find<SST::UnitAlgebra>("k", "1ns");
    std::vector<int>                  vi;
    std::vector<std::string>          vs;
    std::set<int>                     si;
    std::set<std::string>             ss;
    std::map<std::string, int>        mi;
    std::map<std::string, std::string> ms;
    p.find_array("k", vi);
    p.find_array("k", vs);
    p.find_set("k", si);
    p.find_set("k", ss);
    p.find_map("k", mi);
    p.find_map("k", ms);
    (void)p.is_value_array("k");
}

} // namespace verif_witness
