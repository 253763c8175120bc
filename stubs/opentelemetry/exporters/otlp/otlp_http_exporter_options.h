#pragma once
#include <string>
namespace opentelemetry::exporter::otlp {
struct OtlpHttpExporterOptions { std::string url; };
}  // namespace opentelemetry::exporter::otlp
