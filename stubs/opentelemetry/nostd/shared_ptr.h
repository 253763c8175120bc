#pragma once
#include <memory>
namespace opentelemetry::nostd {
template <class T>
class shared_ptr {
   public:
    shared_ptr() noexcept;
    shared_ptr(std::nullptr_t) noexcept;
    explicit shared_ptr(T*);
    shared_ptr(std::shared_ptr<T>) noexcept;
    shared_ptr(const shared_ptr&) noexcept;
    shared_ptr(shared_ptr&&) noexcept;
    template <class U> shared_ptr(shared_ptr<U>) noexcept;
    ~shared_ptr();
    shared_ptr& operator=(const shared_ptr&) noexcept;
    T* operator->() const noexcept;
    T& operator*() const noexcept;
    T* get() const noexcept;
    explicit operator bool() const noexcept;
};
}  // namespace opentelemetry::nostd
