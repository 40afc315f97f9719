// The JSON schema validator is not installed here: the part of JSON schema that phasar's schema uses.
#pragma once
#include "nlohmann/json.hpp"
#include <stdexcept>
namespace nlohmann::json_schema {
class json_validator {
  nlohmann::json Root;
  static bool is(const nlohmann::json &X, const std::string &T) {
    return T == "object" ? X.is_object() : T == "array" ? X.is_array() : T == "string" ? X.is_string() : T == "number" ? X.is_number() : false;
  }
  static void check(const nlohmann::json &S, const nlohmann::json &X) {
    if (!S.is_object())
      return;
    if (auto It = S.find("type"); It != S.end() && It->is_string() && !is(X, *It))
      throw std::invalid_argument("type");
    if (auto It = S.find("enum"); It != S.end() && std::find(It->begin(), It->end(), X) == It->end())
      throw std::invalid_argument("enum");
    if (!X.is_object())
      return;
    if (auto It = S.find("required"); It != S.end())
      for (auto &R : *It)
        if (!X.contains(R.get<std::string>()))
          throw std::invalid_argument("required");
    if (auto It = S.find("properties"); It != S.end())
      for (auto P = It->begin(); P != It->end(); ++P)
        if (X.contains(P.key()))
          check(P.value(), X[P.key()]);
  }

public:
  void set_root_schema(const nlohmann::json &S) { Root = S; }
  void validate(const nlohmann::json &X) const { check(Root, X); }
};
} // namespace nlohmann::json_schema
