S = "lib/spinlock.h"
R = "lib/concurrency/readwrite_protected.h"
A = "core/allocator.h"
G = "core/logging.h"
TRY = "        bool expected = false;\n        return value_.compare_exchange_strong(expected, true, std::memory_order_acq_rel);\n"
M = [
    ("c15-relaxedtry", "C15", "bug", [(S, TRY, TRY.replace("acq_rel", "relaxed"))]),
    ("c15-releasetry", "C15", "bug", [(S, TRY, TRY.replace("acq_rel", "release"))]),
    ("c15-loadstore", "C15", "bug", [(S, TRY, "        if (value_.load(std::memory_order_acquire)) { return false; }\n        value_.store(true, std::memory_order_seq_cst);\n        return true;\n")]),
    ("c15-relaxedunlock", "C15", "bug", [(S, "value_.store(false, std::memory_order_release)", "value_.store(false, std::memory_order_relaxed)")]),
    ("c15-inverted", "C15", "bug", [(S, "while (!try_lock()) {", "if (!try_lock()) {")]),
    ("c15-expected", "C15", "bug", [(S, TRY, "        bool expected = value_.load(std::memory_order_relaxed);\n        return value_.compare_exchange_strong(expected, true, std::memory_order_acq_rel);\n")]),
    ("c15-alwaystrue", "C15", "bug", [(S, TRY, "        bool expected = false;\n        value_.compare_exchange_strong(expected, true, std::memory_order_acq_rel);\n        return true;\n")]),
    ("c15-giveup", "C15", "bug", [(S, "        while (!try_lock()) {\n            detail::pause();\n        }\n", "        for (int i = 0; i < 100000; ++i) {\n            if (try_lock()) { return; }\n            detail::pause();\n        }\n")]),
    ("c15-islocked", "C15", "bug", [(S, "return value_.load(std::memory_order_acquire);", "return const_cast<std::atomic<bool>&>(value_).exchange(true, std::memory_order_acquire);")]),
    ("c15-getnolock", "C15", "bug", [(R, "        std::shared_lock lock{mutex_};\n        // Note", "        // Note")]),
    ("c15-setshared", "C15", "bug", [(R, "    void set(const T& x) {\n        std::unique_lock lock{mutex_};", "    void set(const T& x) {\n        std::shared_lock lock{mutex_};")]),
    ("c15-setmnolock", "C15", "bug", [(R, "    void set(T&& x) {\n        std::unique_lock lock{mutex_};", "    void set(T&& x) {\n        { std::unique_lock lock{mutex_}; }")]),
    ("c15-pilfershared", "C15", "bug", [(R, "        std::unique_lock lock{mutex_};\n        return std::move(x_);", "        std::shared_lock lock{mutex_};\n        return std::move(x_);")]),
    ("c15-copydirect", "C15", "bug", [(R, "        set(other.get());\n    }\n\n    /// @brief Copy assign", "        x_ = other.x_;\n    }\n\n    /// @brief Copy assign")]),
    ("c15-assigndirect", "C15", "bug", [(R, "        set(other.get());\n        return *this;", "        std::unique_lock lock{mutex_};\n        x_ = other.x_;\n        return *this;")]),
    ("c15-noreturn", "C15", "bug", [(R, "        set(other.get());\n        return *this;", "        set(other.get());")]),
    ("c15-reference", "C15", "bug", [(R, "    T get() const& {", "    const T& get() const& {")]),
    ("c15-public", "C15", "bug", [(R, "  private:\n    T x_{};", "  public:\n    T x_{};")]),
    ("c15-trylock", "C15", "bug", [(R, "    void set(const T& x) {\n        std::unique_lock lock{mutex_};", "    void set(const T& x) {\n        std::unique_lock lock{mutex_, std::try_to_lock};")]),
    ("c15-regnolock", "C15", "bug", [(A, "            std::lock_guard lock{mutex_};\n            ptr_to_size_.insert", "            ptr_to_size_.insert")]),
    ("c15-reglocal", "C15", "bug", [(A, "    static void deallocate(void* ptr) {\n        std::lock_guard lock{mutex_};", "    static void deallocate(void* ptr) {\n        std::mutex mine{};\n        std::lock_guard lock{mine};")]),
    ("c15-unmapfirst", "C15", "bug", [(A, "        size_t sz = itr->second;\n        ptr_to_size_.erase(itr);\n        if (!hugepage_unmap(ptr, sz)) {\n            throw ANNEXCEPTION(\"Unmap failed!\");\n        }\n", "        size_t sz = itr->second;\n        if (!hugepage_unmap(ptr, sz)) {\n            throw ANNEXCEPTION(\"Unmap failed!\");\n        }\n        ptr_to_size_.erase(itr);\n")]),
    ("c15-listnolock", "C15", "bug", [(A, "    static tsl::robin_map<void*, size_t> get_allocations() {\n        std::lock_guard lock{mutex_};\n", "    static tsl::robin_map<void*, size_t> get_allocations() {\n")]),
    ("c15-lograw", "C15", "bug", [(G, "inline ::svs::lib::ReadWriteProtected<logger_ptr>& global_logger() {\n    static ::svs::lib::ReadWriteProtected<logger_ptr> logger = detail::default_logger();", "inline ::svs::lib::ReadWriteProtected<logger_ptr>& global_logger() {\n    static thread_local ::svs::lib::ReadWriteProtected<logger_ptr> logger = detail::default_logger();")]),
    ("c15-logcached", "C15", "bug", [(G, "inline logger_ptr get() { return global_logger().get(); }", "inline logger_ptr get() {\n    static logger_ptr cached = global_logger().get();\n    return cached;\n}")]),
    ("c15-sharedinplace", "C15", "bug", [(R, "    T get() const& {\n        std::shared_lock lock{mutex_};\n", "    T get() const& {\n        std::shared_lock lock{mutex_};\n        const_cast<T&>(x_) = T(x_);\n")]),
    # same behaviour
    ("c15-same-exchange", "C15", "same", [(S, TRY, "        return !value_.exchange(true, std::memory_order_acquire);\n")]),
    ("c15-same-acquire", "C15", "same", [(S, TRY, "        bool expected = false;\n        return value_.compare_exchange_strong(\n            expected, true, std::memory_order_acquire, std::memory_order_relaxed\n        );\n")]),
    ("c15-same-ttas", "C15", "same", [(S, "        while (!try_lock()) {\n            detail::pause();\n        }\n", "        for (;;) {\n            if (try_lock()) {\n                return;\n            }\n            while (islocked()) {\n                detail::pause();\n            }\n        }\n")]),
    ("c15-same-early", "C15", "same", [(S, TRY, "        if (islocked()) {\n            return false;\n        }\n" + TRY)]),
    ("c15-same-if", "C15", "same", [(S, TRY, "        bool expected = false;\n        if (value_.compare_exchange_strong(expected, true, std::memory_order_acq_rel)) {\n            return true;\n        }\n        return false;\n")]),
    ("c15-same-seqcst", "C15", "same", [(S, "value_.store(false, std::memory_order_release)", "value_ = false")]),
    ("c15-same-guard", "C15", "same", [(R, "    void set(const T& x) {\n        std::unique_lock lock{mutex_};", "    void set(const T& x) {\n        std::lock_guard<std::shared_mutex> lock{mutex_};")]),
    ("c15-same-local", "C15", "same", [(R, "        return x_;\n", "        T copy = x_;\n        return copy;\n")]),
    ("c15-same-exclusiveget", "C15", "same", [(R, "        std::shared_lock lock{mutex_};\n        // Note", "        std::unique_lock lock{mutex_};\n        // Note")]),
    ("c15-same-manual", "C15", "same", [(R, "    void set(T&& x) {\n        std::unique_lock lock{mutex_};\n        x_ = std::move(x);", "    void set(T&& x) {\n        std::unique_lock lock{mutex_, std::defer_lock};\n        lock.lock();\n        x_ = std::move(x);\n        lock.unlock();")]),
    ("c15-same-emplace", "C15", "same", [(A, "ptr_to_size_.insert({ptr, sz});", "ptr_to_size_.emplace(ptr, sz);")]),
    ("c15-same-outside", "C15", "same", [(A, "        std::lock_guard lock{mutex_};\n        auto itr = ptr_to_size_.find(ptr);\n        if (itr == ptr_to_size_.end()) {\n            throw ANNEXCEPTION(\"Could not find a corresponding size of unmap pointer!\");\n        }\n        size_t sz = itr->second;\n        ptr_to_size_.erase(itr);\n", "        size_t sz = 0;\n        {\n            std::lock_guard lock{mutex_};\n            auto itr = ptr_to_size_.find(ptr);\n            if (itr == ptr_to_size_.end()) {\n                throw ANNEXCEPTION(\"Could not find a corresponding size of unmap pointer!\");\n            }\n            sz = itr->second;\n            ptr_to_size_.erase(itr);\n        }\n")]),
    ("c15-same-logger", "C15", "same", [(G, "inline Level get_level() { return get_level(get()); }", "inline Level get_level() {\n    auto logger = global_logger().get();\n    return get_level(logger);\n}")]),
]
