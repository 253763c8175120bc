#pragma once
#include <opentelemetry/trace/span.h>
namespace opentelemetry::trace {
class Provider {
   public:
    static nostd::shared_ptr<TracerProvider> GetTracerProvider() noexcept;
    static void SetTracerProvider(const nostd::shared_ptr<TracerProvider>&) noexcept;
};
}  // namespace opentelemetry::trace
