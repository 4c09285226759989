// Linked with --wrap: the node table's initial and maximal size come from the
// environment, so that table growth (and its failure, which starts a garbage
// collection) happens at chosen points.
#include <cstdlib>
extern "C" int __real__Z8BDD_Inityy(unsigned long long, unsigned long long);
extern "C" int __wrap__Z8BDD_Inityy(unsigned long long init, unsigned long long limit) {
  const char* i = getenv("GRAPHILLION_VERIF_INIT");
  const char* l = getenv("GRAPHILLION_VERIF_LIMIT");
  return __real__Z8BDD_Inityy(i ? atoll(i) : init, l ? atoll(l) : limit);
}
