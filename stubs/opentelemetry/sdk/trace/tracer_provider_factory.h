#pragma once
#include <memory>
#include <opentelemetry/trace/span.h>
#include <opentelemetry/sdk/resource/resource.h>
#include <opentelemetry/sdk/trace/simple_processor_factory.h>
namespace opentelemetry::sdk::trace {
class TracerProviderFactory {
   public:
    static std::unique_ptr<opentelemetry::trace::TracerProvider> Create(std::unique_ptr<SpanProcessor>, const resource::Resource&);
};
}  // namespace opentelemetry::sdk::trace
