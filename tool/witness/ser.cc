// Instantiates the serialisation templates for every kind of type the library supports.
#include "sst_config.h"

#include "sst/core/serialization/serialize.h"
#include "sst/core/serialization/serializer.h"
#include "sst/core/serialization/serializable.h"

#include <array>
#include <atomic>
#include <bitset>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <valarray>
#include <variant>
#include <vector>

using namespace SST::Core::Serialization;

namespace witness {

struct NonTrivial
{
    std::string a;
    int         b;
    NonTrivial() = default;
    explicit NonTrivial(int x) :
        b(x)
    {}
    void serialize_order(serializer& ser)
    {
        SST_SER(a);
        SST_SER(b);
    }
};

struct Agg
{
    std::string      a;
    int              b;
    std::vector<int> c;
};

struct Poly : public serializable
{
    int  x = 0;
    void serialize_order(serializer& ser) override { SST_SER(x); }
    ImplementSerializable(witness::Poly)
};

enum class Enum { A, B };

template <typename T>
void
one(serializer& ser, T& t)
{
    SST_SER(t);
}

void
all(serializer& ser)
{
#define W(n, ...)  \
    __VA_ARGS__ n; \
    one(ser, n);
    W(i, int)
    W(e, Enum)
    W(d, double)
    W(s, std::string)
    W(nt, NonTrivial)
    W(ag, Agg)
    W(pp, Poly*)
    W(ip, int*)
    W(sp, std::string*)
    W(vi, std::vector<int>)
    W(vb, std::vector<bool>)
    W(vs, std::vector<std::string>)
    W(vv, std::vector<std::vector<std::string>>)
    W(vp, std::vector<Poly*>)
    W(dq, std::deque<std::string>)
    W(li, std::list<std::string>)
    W(fl, std::forward_list<std::string>)
    W(mp, std::map<std::string, std::vector<int>>)
    W(mm, std::multimap<std::string, std::vector<int>>)
    W(um, std::unordered_map<std::string, std::vector<int>>)
    W(umm, std::unordered_multimap<std::string, std::vector<int>>)
    W(st, std::set<std::string>)
    W(ms, std::multiset<std::string>)
    W(us, std::unordered_set<std::string>)
    W(ums, std::unordered_multiset<std::string>)
    W(pr, std::pair<std::string, std::vector<int>>)
    W(tp, std::tuple<std::string, int, std::vector<int>>)
    W(arr, std::array<std::string, 3>)
    W(arri, std::array<int, 3>)
    W(vai, std::valarray<int>)
    W(bs, std::bitset<7>)
    W(op, std::optional<std::string>)
    W(vr, std::variant<int, std::string, std::vector<int>>)
    W(at, std::atomic<int>)
    W(sk, std::stack<std::string>)
    W(qu, std::queue<std::string>)
    W(pq, std::priority_queue<std::string>)
    W(up, std::unique_ptr<std::string>)
    W(shp, std::shared_ptr<NonTrivial>)
    W(wp, std::weak_ptr<NonTrivial>)
    W(pvs, std::vector<std::string>*)
    W(pbs, std::bitset<7>*)
    int ca[4];
    one(ser, ca);
    std::string cs[4];
    one(ser, cs);
    int*         ptr = nullptr;
    std::size_t  n   = 0;
    std::string* str = nullptr;
    unsigned     un  = 0;
    SST_SER(SST::Core::Serialization::array(ptr, n));
    SST_SER(SST::Core::Serialization::array(str, un));
    std::unique_ptr<std::string[]> ua;
    SST_SER(SST::Core::Serialization::unique_ptr(ua, n));
    std::shared_ptr<std::string[]> sa;
    SST_SER(SST::Core::Serialization::shared_ptr(sa, n));
}

} // namespace witness
