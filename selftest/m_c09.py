R = "lib/threads/threadpool.h"
K = "lib/threads/thunks.h"
MAIN = """        try {
            f(0);
        } catch (const std::exception& error) {
            manage_exception_during_run(error.what());
        } catch (...) {
            // Any exception must be managed: Leaving now would abandon running workers.
            manage_exception_during_run("unknown exception");
        }
"""
WAIT = """        for (size_t i = 0; i < threads_.size(); ++i) {
            auto& thread = threads_[i];
            thread.wait();
            if (!thread.is_okay()) {
                manage_exception_during_run();
            }
        }
"""
def mn(s): return [(R, MAIN, s)]
def wt(s): return [(R, WAIT, s)]
M = [
 ("c09-nocatch", "C09", "bug", mn("        f(0);\n")),
 ("c09-catchstd", "C09", "bug", mn(MAIN[:MAIN.index(" catch (...)")] + "\n")),
 ("c09-rethrow", "C09", "bug", mn("        std::exception_ptr err{};\n        try { f(0); } catch (...) { throw; }\n")),
 ("c09-workercatch", "C09", "bug", [(R, " catch (...) {\n                    fmt::format_to(inserter, \"Thread {}: unknown exception\\n\", i + 1);\n                }", "")]),
 ("c09-waitless", "C09", "bug", wt(WAIT.replace("i = 0", "i = 1"))),
 ("c09-waitif", "C09", "bug", wt(WAIT.replace("            thread.wait();\n", "            if (!thread.is_okay()) { thread.wait(); }\n"))),
 ("c09-nookay", "C09", "bug", wt("        for (auto& thread : threads_) { thread.wait(); }\n        if (!threads_.empty() && !threads_.back().is_okay()) { manage_exception_during_run(); }\n")),
 ("c09-okfirst", "C09", "bug", wt(WAIT.replace("            thread.wait();\n            if (!thread.is_okay()) {", "            const bool okay = thread.is_okay();\n            thread.wait();\n            if (!okay) {"))),
 ("c09-idx", "C09", "bug", [(R, "threads_[i].assign({f, i + 1});", "threads_[i].assign({f, i});")]),
 ("c09-less", "C09", "bug", [(R, "        for (size_t i = 0; i < threads_.size(); ++i) {\n            threads_[i].assign", "        for (size_t i = 0; i + 1 < threads_.size(); ++i) {\n            threads_[i].assign")]),
 ("c09-norestart", "C09", "bug", [(R, "                threads_[i] = builder_.build(i + 1);\n", "")]),
 ("c09-noshut", "C09", "bug", [(R, "                threads_[i].shutdown();\n", "")]),
 ("c09-early", "C09", "bug", [(R, "                threads_[i] = builder_.build(i + 1);\n", "                threads_[i] = builder_.build(i + 1);\n                if (!thread_0_message.empty()) { break; }\n")]),
 ("c09-waitbreak", "C09", "bug", [(R, "            auto& thread = threads_[i];\n            thread.wait();\n            if (!thread.is_okay()) {\n                try {", "            auto& thread = threads_[i];\n            if (!thread.is_okay()) {\n                try {")]),
 ("c09-nothrow", "C09", "bug", [(R, "        throw ThreadingException{std::move(message)};", "        if (!message.empty()) { throw ThreadingException{std::move(message)}; }")]),
 ("c09-lock", "C09", "bug", [(R, "    void run(FunctionRef f) {\n        std::lock_guard lock{*use_mutex_};", "    void run(FunctionRef f) {\n        { std::lock_guard lock{*use_mutex_}; }")]),
 ("c09-lock2", "C09", "bug", [(R, "        new_size = std::max(new_size, size_t{1});\n        std::lock_guard lock{*use_mutex_};\n", "        new_size = std::max(new_size, size_t{1});\n")]),
 ("c09-resize", "C09", "bug", [(R, "threads_.resize(new_size - 1);", "threads_.resize(new_size);")]),
 ("c09-resize0", "C09", "bug", [(R, "            while (new_size > size()) {", "            while (new_size > size() + 1) {")]),
 ("c09-ctor", "C09", "bug", [(R, "tid < num_threads - 1; ++tid", "tid < num_threads; ++tid")]),
 ("c09-tref", "C09", "bug", [(K, "void operator()() const { fn(thread_id); }", "void operator()() const { fn(thread_id - 1); }")]),
 ("c09-same1", "C09", "same", mn("        std::string failure{};\n        bool failed = false;\n        try {\n            f(0);\n        } catch (const std::exception& error) {\n            failed = true;\n            failure = error.what();\n        } catch (...) {\n            failed = true;\n            failure = \"unknown\";\n        }\n        if (failed) {\n            manage_exception_during_run(failure);\n        }\n")),
 ("c09-same2", "C09", "same", wt("        for (auto& thread : threads_) {\n            thread.wait();\n        }\n        for (auto& thread : threads_) {\n            if (!thread.is_okay()) {\n                manage_exception_during_run();\n            }\n        }\n")),
 ("c09-same3", "C09", "same", [(R, "        for (size_t i = 0; i < threads_.size(); ++i) {\n            threads_[i].assign({f, i + 1});\n        }", "        size_t tid = 1;\n        for (auto& thread : threads_) {\n            thread.assign(ThreadFunctionRef{f, tid});\n            ++tid;\n        }")]),
 ("c09-same4", "C09", "same", [(R, "                threads_[i].shutdown();\n                threads_[i] = builder_.build(i + 1);\n", "                thread.shutdown();\n                auto fresh = builder_.build(i + 1);\n                thread = std::move(fresh);\n")]),
 ("c09-same5", "C09", "same", [(R, """        if (new_size < size()) {
            threads_.resize(new_size - 1);
        } else {
            while (new_size > size()) {
                threads_.push_back(builder_.build(size()));
            }
        }
""", """        const size_t workers = new_size - 1;
        if (workers < threads_.size()) {
            threads_.resize(workers);
            return;
        }
        for (size_t tid = threads_.size(); threads_.size() < workers; ++tid) {
            threads_.push_back(builder_.build(tid + 1));
        }
""")]),
 ("c09-same6", "C09", "same", [(R, "            thread.wait();\n            if (!thread.is_okay()) {\n                try {", "            thread.wait();\n            if (thread.is_okay()) {\n                continue;\n            }\n            {\n                try {")]),
 ("c09-same7", "C09", "same", wt("        bool crashed = false;\n        for (size_t i = 0; i < threads_.size(); ++i) {\n            threads_[i].wait();\n            if (!threads_[i].is_okay()) {\n                crashed = true;\n            }\n        }\n        if (crashed) {\n            manage_exception_during_run();\n        }\n")),
 ("c09-same8", "C09", "same", [(R, "        for (size_t tid = 0; tid < num_threads - 1; ++tid) {\n            threads_.push_back(builder_.build(tid + 1));", "        for (size_t tid = 1; tid < num_threads; ++tid) {\n            threads_.push_back(builder_.build(tid));")]),
]
