T = "lib/threads/thread.h"
def t(old, new): return [(T, old, new)]
SLEEPCASE = """                case ThreadState::Sleeping: {
                    if (success) {
                        { std::lock_guard lock{cv_mutex_}; }
                        unsafe_wake_thread();
                        return;
                    }
                    break;
                }
"""
SHUTSLEEP = """                case ThreadState::Sleeping: {
                    if (success) {
                        { std::lock_guard lock{cv_mutex_}; }
                        unsafe_wake_thread();
                        shutdown_requested = true;
"""
ASSIGN = """        ThreadState current = wait_while_busy();
        unsafe_set_work(fn);
        notify_thread(current);
"""
CANSLEEP = """        if (cansleep) {
            cv_.wait(lock, [&] {
                ThreadState state = get_state(std::memory_order_acquire);
                telemetry_.sleep_predicate_check();
                post_op();
                return state == ThreadState::Working ||
                       state == ThreadState::RequestShutdown;
            });
            telemetry_.sleep_success();
"""
RUN = """                get_work()();
                set_state(ThreadState::Spinning, std::memory_order_release);
"""
TS = """                try_sleep();
                request = get_state(std::memory_order_acquire);
"""
SWITCH = t("""            switch (current) {
                // If the thread was in the `Spinning` state and""", "@")
def nb():
    """the notify_thread body from 'bool success' to the end of the loop"""
    s = open("/repo/include/svs/" + T).read()
    a = s.index("            bool success = cas_state(current, next);"); b = s.index("    // The threadstate must be one of") if 0 else s.index("    ///", a)
    return s[a:s.index("        }\n    }\n", a)]
NB = nb()
M = [
 ("c11-nolock", "C11", "bug", t(SLEEPCASE, SLEEPCASE.replace("                        { std::lock_guard lock{cv_mutex_}; }\n", ""))),
 ("c11-nonotify", "C11", "bug", t(SLEEPCASE, SLEEPCASE.replace("                        unsafe_wake_thread();\n", ""))),
 ("c11-shutnolock", "C11", "bug", t(SHUTSLEEP, SHUTSLEEP.replace("                        { std::lock_guard lock{cv_mutex_}; }\n", ""))),
 ("c11-shutnonotify", "C11", "bug", t(SHUTSLEEP, SHUTSLEEP.replace("                        unsafe_wake_thread();\n", ""))),
 ("c11-earlynotify", "C11", "bug", t(NB, "            if (current == ThreadState::Sleeping) { { std::lock_guard lock{cv_mutex_}; } unsafe_wake_thread(); }\n" + NB.replace("                        { std::lock_guard lock{cv_mutex_}; }\n                        unsafe_wake_thread();\n", ""))),
 ("c11-failreturn", "C11", "bug", t(SLEEPCASE, SLEEPCASE.replace("                    break;\n", "                    return;\n"))),
 ("c11-norollback", "C11", "bug", t("""                case ThreadState::Exception: {
                    rollback();
""", """                case ThreadState::Exception: {
""")),
 ("c11-shutnorollback", "C11", "bug", t("""                case ThreadState::Shutdown: {
                    rollback();
                    exit_loop = true;""", """                case ThreadState::Shutdown: {
                    exit_loop = true;""")),
 ("c11-workafter", "C11", "bug", t(ASSIGN, "        ThreadState current = wait_while_busy();\n        notify_thread(current);\n        unsafe_set_work(fn);\n")),
 ("c11-nowaitbusy", "C11", "bug", t(ASSIGN, "        ThreadState current = get_state();\n        unsafe_set_work(fn);\n        notify_thread(current);\n")),
 ("c11-workfirst", "C11", "bug", t(ASSIGN, "        unsafe_set_work(fn);\n        ThreadState current = wait_while_busy();\n        notify_thread(current);\n")),
 ("c11-sleepnolock", "C11", "bug", t("        telemetry_.sleep_attempt();\n        std::unique_lock lock{cv_mutex_};\n", "        telemetry_.sleep_attempt();\n        std::unique_lock lock{cv_mutex_, std::defer_lock};\n").__add__(t("        if (cansleep) {\n", "        if (cansleep) {\n            lock.lock();\n"))),
 ("c11-unlockgap", "C11", "bug", t("        if (cansleep) {\n", "        if (cansleep) {\n            lock.unlock();\n            lock.lock();\n")),
 ("c11-nopred", "C11", "bug", t(CANSLEEP, "        if (cansleep) {\n            cv_.wait(lock);\n            telemetry_.sleep_success();\n")),
 ("c11-notwhile", "C11", "bug", t(CANSLEEP, "        if (cansleep) {\n            if (get_state(std::memory_order_acquire) == ThreadState::Sleeping) { cv_.wait(lock); }\n            telemetry_.sleep_success();\n")),
 ("c11-predspin", "C11", "bug", t("return state == ThreadState::Working ||\n                       state == ThreadState::RequestShutdown;", "return state == ThreadState::Working;")),
 ("c11-sleepstore", "C11", "bug", t("""        bool cansleep =
            cas_state(expected, ThreadState::Sleeping, std::memory_order_seq_cst);
""", """        bool cansleep = get_state() == expected;
        if (cansleep) { set_state(ThreadState::Sleeping); }
""")),
 ("c11-relaxdone", "C11", "bug", t("set_state(ThreadState::Spinning, std::memory_order_release);", "set_state(ThreadState::Spinning, std::memory_order_relaxed);")),
 ("c11-relaxwait", "C11", "bug", t("T value = var.load(std::memory_order_acquire);\n        if (!compare", "T value = var.load(std::memory_order_relaxed);\n        if (!compare")),
 ("c11-spinreturn", "C11", "bug", t("        while (compare(value, test)) {\n", "        while (true) {\n            if (!compare(value, test)) { return value; }\n")),
 ("c11-relaxreq", "C11", "bug", t(TS, TS.replace("acquire", "relaxed"))),
 ("c11-donefirst", "C11", "bug", t(RUN, "                auto work = get_work();\n                set_state(ThreadState::Spinning, std::memory_order_release);\n                work();\n")),
 ("c11-noexc", "C11", "bug", t("                set_state(ThreadState::Exception);\n", "                set_state(ThreadState::Shutdown);\n")),
 ("c11-nopromise", "C11", "bug", t("                try {\n                    promise.set_exception_at_thread_exit(std::current_exception());\n                } catch (...) { std::terminate(); }\n", "")),
 ("c11-stdonly", "C11", "bug", t("""            } catch (...) {
                set_state(ThreadState::Exception);
""", """            } catch (const std::exception&) {
                set_state(ThreadState::Exception);
""")),
 ("c11-ctnue", "C11", "bug", t("""                    promise.set_exception_at_thread_exit(std::current_exception());
                } catch (...) { std::terminate(); }
                return;
""", """                    promise.set_exception_at_thread_exit(std::current_exception());
                } catch (...) { std::terminate(); }
                set_state(ThreadState::Spinning);
                continue;
""")),
 ("c11-noreread", "C11", "bug", t(TS, "                try_sleep();\n                request = ThreadState::Working;\n")),
 ("c11-ifsleep", "C11", "bug", t(TS, "                if (!try_sleep()) { continue; }\n                request = get_state(std::memory_order_acquire);\n").__add__(t("            return true;\n        }\n        telemetry_.sleep_fail();", "            set_state(ThreadState::Working);\n            return true;\n        }\n        telemetry_.sleep_fail();"))),
 ("c11-shutorder", "C11", "bug", t("            if (request == ThreadState::RequestShutdown) {", "            if (request == ThreadState::RequestShutdown && spin_count != 0) {")),
 ("c11-ctornowait", "C11", "bug", t("        control_->spin_while(boot_state());\n    }", "    }")),
 ("c11-bootlate", "C11", "bug", t("        control_->set_state(boot_state());\n        auto f", "        auto f").__add__(t("        control_->spin_while(boot_state());\n    }", "        control_->set_state(boot_state());\n        control_->spin_while(boot_state());\n    }"))),
 ("c11-nojoin", "C11", "bug", t("        if (worker_.joinable()) {\n            worker_.join();", "        if (worker_.joinable() && result_.valid()) {\n            worker_.join();")),
 ("c11-dtor", "C11", "bug", t("~ThreadImpl() { shutdown(); }", "~ThreadImpl() { if (worker_.joinable()) { worker_.detach(); } }")),
 ("c11-swallow", "C11", "bug", t("catch (const std::exception& inner_error) { throw ThreadError{inner_error}; }", "catch (const std::exception& /*inner_error*/) {}")),
 ("c11-crashok", "C11", "bug", t("return get_state(order) != ThreadState::Exception;", "return get_state(order) != ThreadState::Shutdown;")),
 ("c11-caswrong", "C11", "bug", t("        auto expected = ThreadState::Spinning;\n        bool cansleep", "        auto expected = get_state();\n        bool cansleep")),
 ("c11-casrelaxed", "C11", "bug", t("            bool success = cas_state(current, next);", "            bool success = cas_state(current, next, std::memory_order_acquire);")),
 # behaviour-preserving
 ("c11-same1", "C11", "same", t("{ cv_.notify_one(); }", "{ cv_.notify_all(); }")),
 ("c11-same2", "C11", "same", t(SLEEPCASE, SLEEPCASE.replace("{ std::lock_guard lock{cv_mutex_}; }\n                        unsafe_wake_thread();", "std::unique_lock lock{cv_mutex_};\n                        unsafe_wake_thread();"))),
 ("c11-same3", "C11", "same", t(CANSLEEP, """        if (cansleep) {
            for (;;) {
                const ThreadState state = get_state(std::memory_order_acquire);
                telemetry_.sleep_predicate_check();
                post_op();
                if (state == ThreadState::Working || state == ThreadState::RequestShutdown) { break; }
                cv_.wait(lock);
            }
            telemetry_.sleep_success();
""")),
 ("c11-same4", "C11", "same", t(NB, """            const ThreadState before = current;
            const bool success = cas_state(current, next);
            if (success && before == ThreadState::Spinning) { return; }
            if (success && before == ThreadState::Sleeping) {
                { std::lock_guard lock{cv_mutex_}; }
                unsafe_wake_thread();
                return;
            }
            if (!success && (current == ThreadState::Spinning || current == ThreadState::Sleeping)) { continue; }
            if (success) { set_state(current); }
            if (current == ThreadState::Exception) { throw ThreadCrashedError("Thread Crashed!"); }
            if (current == ThreadState::Shutdown) { throw ANNEXCEPTION("Trying to assign work to a shutdown thread."); }
            throw ANNEXCEPTION("Concurrency Violation!");
""")),
 ("c11-same5", "C11", "same", t(RUN, "                const auto work = get_work();\n                work();\n                set_state(ThreadState::Spinning);\n")),
 ("c11-same6", "C11", "same", t("        ThreadState current = wait_while_busy();\n        unsafe_set_work(fn);", "        ThreadState current = get_state(std::memory_order_acquire);\n        while (current == ThreadState::Working) { svs::detail::pause(); current = get_state(std::memory_order_acquire); }\n        unsafe_set_work(fn);")),
 ("c11-same7", "C11", "same", t("            if (exit_loop) {\n                break;\n            }\n        }\n\n        if (shutdown_requested && wait) {", "            if (!exit_loop) {\n                continue;\n            }\n            break;\n        }\n\n        if (wait && shutdown_requested) {")),
 ("c11-same8", "C11", "same", t("            if (request == ThreadState::RequestShutdown) {\n                // Failure", "            const bool stop = request == ThreadState::RequestShutdown;\n            if (stop) {\n                // Failure")),
 ("c11-same9", "C11", "same", t("        if (worker_.joinable()) {\n            worker_.join();\n        }\n", "        const bool running = worker_.joinable();\n        if (running) {\n            worker_.join();\n        }\n")),
 ("c11-same10", "C11", "same", t("        T value = var.load(std::memory_order_acquire);\n        if (!compare(value, test)) {\n            return value;\n        }\n", "        T value = var.load();\n        const bool same = compare(value, test);\n        if (!same) {\n            return value;\n        }\n")),
]
