#pragma once
#include <map>
#include <string>
namespace opentelemetry::sdk::resource {
class Resource {
   public:
    static Resource Create(const std::map<std::string, std::string>& attributes);
};
}  // namespace opentelemetry::sdk::resource
