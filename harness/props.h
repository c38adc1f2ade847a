#ifndef VERIF_HARNESS_PROPS_H_
#define VERIF_HARNESS_PROPS_H_
#include <string>
#include <vector>

struct PropScenario {
  const char* scenario;
  const char* flavor;   // any, rel, dbg, prof
  int weight;
  const char* variant;  // emphasis for the generator (nullptr: the property)
};
struct PropDef {
  const char* id;
  std::vector<PropScenario> scenarios;
  std::vector<const char*> classes;  // outcomes that violate this property
};
const PropDef* FindProp(const std::string& id);
#endif
