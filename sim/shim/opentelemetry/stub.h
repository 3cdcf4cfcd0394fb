// Stand-in for opentelemetry-cpp (absent from this sandbox). Only what ion's sources name.
// Spans carry a deterministic trace id when a provider has been installed, none otherwise.
#pragma once
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <utility>

namespace opentelemetry {
namespace nostd {
template <class T>
using shared_ptr = std::shared_ptr<T>;
template <class T>
using unique_ptr = std::unique_ptr<T>;
using string_view = std::string_view;
}  // namespace nostd
namespace trace {
class TraceId {
   public:
    explicit TraceId(uint64_t n = 0) : n_(n) {}
    void ToLowerBase16(char (&out)[32]) const {
        for (int i = 0; i < 32; i++) {
            uint64_t nib = i < 16 ? 0xa : (n_ >> ((31 - i) * 4)) & 15;
            out[i] = "0123456789abcdef"[nib];
        }
    }

   private:
    uint64_t n_;
};
class SpanContext {
   public:
    explicit SpanContext(uint64_t n = 0) : n_(n) {}
    bool IsValid() const { return n_ != 0; }
    TraceId trace_id() const { return TraceId{n_}; }

   private:
    uint64_t n_;
};
class Span {
   public:
    explicit Span(uint64_t n = 0) : n_(n) {}
    template <class V>
    void SetAttribute(nostd::string_view, const V&) {}
    template <class... A>
    void AddEvent(A&&...) {}
    template <class... A>
    void SetStatus(A&&...) {}
    void UpdateName(nostd::string_view) {}
    void End() {}
    bool IsRecording() const { return n_ != 0; }
    SpanContext GetContext() const { return SpanContext{n_}; }

   private:
    uint64_t n_;
};
struct Current {
    static nostd::shared_ptr<Span>& slot() {
        static nostd::shared_ptr<Span> s = std::make_shared<Span>();
        return s;
    }
};
class Scope {
   public:
    explicit Scope(const nostd::shared_ptr<Span>& s) : saved_(Current::slot()) { Current::slot() = s; }
    ~Scope() { Current::slot() = saved_; }
    Scope(const Scope&) = delete;
    Scope& operator=(const Scope&) = delete;

   private:
    nostd::shared_ptr<Span> saved_;
};
class Tracer {
   public:
    explicit Tracer(bool real) : real_(real) {}
    nostd::shared_ptr<Span> StartSpan(nostd::string_view) {
        static uint64_t next = 0;
        return std::make_shared<Span>(real_ ? ++next : 0);
    }
    static Scope WithActiveSpan(nostd::shared_ptr<Span>& s) { return Scope(s); }
    static nostd::shared_ptr<Span> GetCurrentSpan() { return Current::slot(); }

   private:
    bool real_;
};
class TracerProvider {
   public:
    virtual ~TracerProvider() = default;
    virtual nostd::shared_ptr<Tracer> GetTracer(nostd::string_view) { return std::make_shared<Tracer>(true); }
};
class NoopTracerProvider : public TracerProvider {
   public:
    nostd::shared_ptr<Tracer> GetTracer(nostd::string_view) override { return std::make_shared<Tracer>(false); }
};
class Provider {
   public:
    static nostd::shared_ptr<TracerProvider> GetTracerProvider() { return slot(); }
    static void SetTracerProvider(const nostd::shared_ptr<TracerProvider>& p) { slot() = p; }

   private:
    static nostd::shared_ptr<TracerProvider>& slot() {
        static nostd::shared_ptr<TracerProvider> s = std::make_shared<NoopTracerProvider>();
        return s;
    }
};
}  // namespace trace
namespace sdk {
namespace resource {
struct Resource {
    static Resource Create(std::initializer_list<std::pair<std::string, std::string>>) { return {}; }
};
}  // namespace resource
namespace trace {
struct SpanExporter {};
struct SpanProcessor {};
struct SimpleSpanProcessorFactory {
    static std::unique_ptr<SpanProcessor> Create(std::unique_ptr<SpanExporter>&&) {
        return std::make_unique<SpanProcessor>();
    }
};
struct TracerProviderFactory {
    static std::unique_ptr<opentelemetry::trace::TracerProvider> Create(std::unique_ptr<SpanProcessor>&&,
                                                                       resource::Resource&&) {
        return std::make_unique<opentelemetry::trace::TracerProvider>();
    }
};
}  // namespace trace
}  // namespace sdk
namespace exporter::otlp {
struct OtlpHttpExporterOptions {};
struct OtlpHttpExporterFactory {
    static std::unique_ptr<sdk::trace::SpanExporter> Create(const OtlpHttpExporterOptions&) {
        return std::make_unique<sdk::trace::SpanExporter>();
    }
};
}  // namespace exporter::otlp
}  // namespace opentelemetry
