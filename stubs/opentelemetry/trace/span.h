#pragma once
#include <cstdint>
#include <span>
#include <string>
#include <string_view>
#include <opentelemetry/nostd/shared_ptr.h>
// Declarations only: enough of the OpenTelemetry API for the analysed sources to be type-checked.
namespace opentelemetry::trace {
class TraceId {
   public:
    void ToLowerBase16(std::span<char, 32> buffer) const noexcept;
};
class SpanContext {
   public:
    bool IsValid() const noexcept;
    const TraceId& trace_id() const noexcept;
};
class Span {
   public:
    virtual ~Span();
    void SetAttribute(std::string_view key, const std::string& value) noexcept;
    void SetAttribute(std::string_view key, const char* value) noexcept;
    void SetAttribute(std::string_view key, bool value) noexcept;
    void SetAttribute(std::string_view key, int value) noexcept;
    void SetAttribute(std::string_view key, unsigned value) noexcept;
    void SetAttribute(std::string_view key, long value) noexcept;
    void SetAttribute(std::string_view key, unsigned long value) noexcept;
    void SetAttribute(std::string_view key, uint16_t value) noexcept;
    void AddEvent(std::string_view name) noexcept;
    void SetStatus(int code, std::string_view description = "") noexcept;
    void UpdateName(std::string_view name) noexcept;
    void End() noexcept;
    SpanContext GetContext() const noexcept;
    bool IsRecording() const noexcept;
};
class Scope {
   public:
    explicit Scope(const nostd::shared_ptr<Span>&) noexcept;
    ~Scope();
};
class Tracer {
   public:
    nostd::shared_ptr<Span> StartSpan(std::string_view name) noexcept;
    static Scope WithActiveSpan(nostd::shared_ptr<Span>& span) noexcept;
    static nostd::shared_ptr<Span> GetCurrentSpan() noexcept;
};
class TracerProvider {
   public:
    virtual ~TracerProvider();
    nostd::shared_ptr<Tracer> GetTracer(std::string_view name) noexcept;
};
class NoopTracerProvider : public TracerProvider {};
}  // namespace opentelemetry::trace
