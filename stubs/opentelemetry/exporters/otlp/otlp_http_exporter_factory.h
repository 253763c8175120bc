#pragma once
#include <memory>
#include <opentelemetry/exporters/otlp/otlp_http_exporter_options.h>
#include <opentelemetry/sdk/trace/simple_processor_factory.h>
namespace opentelemetry::exporter::otlp {
class OtlpHttpExporterFactory {
   public:
    static std::unique_ptr<opentelemetry::sdk::trace::SpanExporter> Create(const OtlpHttpExporterOptions&);
};
}  // namespace opentelemetry::exporter::otlp
