// The names of fields (spec/Labels.tla, P33).
#include <map>

#include "nimble_data_utils.h"
#include "probe_common.h"

using namespace nimble;

static std::string
text(const json& l)
{
  std::string s;
  for (auto& c : l) s += c.get<std::string>();
  return s;
}

static Length
length(const std::string& s)
{
  if (s == "scalar") return SCALAR;
  if (s == "vector") return VECTOR;
  if (s == "sym") return SYMMETRIC_TENSOR;
  if (s == "full") return FULL_TENSOR;
  if (s == "undefined") return UNDEFINED_LENGTH;
  return static_cast<Length>(std::stoi(s));
}

static std::string
name(Length l)
{
  switch (l) {
    case SCALAR: return "scalar";
    case VECTOR: return "vector";
    case SYMMETRIC_TENSOR: return "sym";
    case FULL_TENSOR: return "full";
    default: return std::to_string(static_cast<int>(l));
  }
}

static json
run(const json& item)
{
  std::map<int, Field> reg;
  json                 out = json::array();
  for (auto& o : item["ops"]) {
    std::string op = o["op"];
    json        r;
    if (op == "ask") {
      std::string l = text(o["l"]);
      r["has"]      = HasIntegrationPointPrefix(l);
      r["strip"]    = RemoveIntegrationPointPrefix(l);
      r["point"]    = o["point"].get<int>() < 0 ? -1 : LabelToIntegrationPointNumber(l);
    } else if (op == "add") {
      std::string l = AddIntegrationPointPrefix(text(o["l"]), o["n"]);
      r["val"]      = l;
      r["has"]      = HasIntegrationPointPrefix(l);
      r["strip"]    = RemoveIntegrationPointPrefix(l);
      r["point"]    = LabelToIntegrationPointNumber(l);
    } else if (op == "parts") {
      std::string l = text(o["l"]);
      Length      n = length(o["len"]);
      r["val"]      = GetComponentLabels(l, n, o["dim"]);
      json at       = json::array();
      int  m        = o["val"].size();
      for (int i = 0; i < m; ++i) at.push_back(GetComponentLabel(l, n, o["dim"], i, o["n"]));
      r["at"] = at;
      if (n != SCALAR && !(n == VECTOR && o["dim"] == 2)) {
        try {
          GetComponentLabel(l, n, o["dim"], m, o["n"]);
          r["beyond"] = true;
        } catch (const std::invalid_argument&) {
        }
      }
    } else if (op == "count") {
      try {
        r["val"] = LengthToInt(length(o["len"]), o["dim"]);
      } catch (const std::invalid_argument&) {
        r["val"] = -1;
      }
    } else if (op == "register") {
      int id  = static_cast<int>(reg.size());
      Field& f = reg[id];
      f.id_ = id, f.label_ = text(o["l"]), f.relation_ = ELEMENT, f.length_ = length(o["len"]);
    } else if (op == "find") {
      try {
        r["val"] = name(LabelToLength(text(o["l"]), reg, 3));
      } catch (const std::invalid_argument&) {
        r["val"] = "absent";
      }
    }
    out.push_back(r);
  }
  return {{"ops", out}};
}

int
main()
{
  return probe::run_items(probe::read_items(), run, 10);
}
