#pragma once
#include <memory>
namespace opentelemetry::sdk::trace {
class SpanExporter { public: virtual ~SpanExporter(); };
class SpanProcessor { public: virtual ~SpanProcessor(); };
class SimpleSpanProcessorFactory {
   public:
    static std::unique_ptr<SpanProcessor> Create(std::unique_ptr<SpanExporter>&&);
};
}  // namespace opentelemetry::sdk::trace
