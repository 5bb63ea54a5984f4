H = 'include/stlab/concurrency/future.hpp'
REC1 = """            if (!ready) _then.emplace_back(std::move(executor), std::move(pro));
        }

        if (ready) executor(std::move(pro)); // cannot reference this after here"""
REC2 = """            if (!ready) _then = {std::move(executor), std::move(pro)};
        }
        if (ready) executor(std::move(pro)); // cannot reference this after here"""
EDITS = [
    ('f08_pending_own', H, REC1, REC1.replace('std::move(executor)', '_executor'), ['F08']),
    ('f08_ready_own', H, REC1, REC1.replace('(ready) executor', '(ready) _executor'), ['F08']),
    ('f08_ready_inline', H, REC1, REC1.replace('(ready) executor(std::move(pro))', '(ready) std::move(pro)()'), ['F08']),
    ('f08_pending_imm', H, REC2, REC2.replace('std::move(executor)', 'immediate_executor'), ['F08']),
    ('f08_moved_first', H, REC1, REC1.replace("if (!ready) _then.emplace_back(std::move(executor), std::move(pro));",
                                             "executor_t e = std::move(executor);\n            if (!ready) _then.emplace_back(std::move(e), std::move(pro));"), ['F08']),
    ('f08_then_default', H, """    auto then(E&& executor, F&& f) && {
        return std::move(*this).recover(std::forward<E>(executor),""", """    auto then(E&& executor, F&& f) && {
        (void)executor;
        return std::move(*this).recover(""", ['F08']),
    ('f08_state_exec', H, """        auto [pro, fut] = package<result_type()>(
            executor, [_f = std::forward<F>(f), _p = std::move(p)]() mutable {
                return std::move(_f)(std::move(_p));
            });

        bool ready{false};
        {
            std::unique_lock<std::mutex> lock(_mutex);
            ready = _ready;
            if (!ready) _then.emplace_back""", """        auto [pro, fut] = package<result_type()>(
            _executor, [_f = std::forward<F>(f), _p = std::move(p)]() mutable {
                return std::move(_f)(std::move(_p));
            });

        bool ready{false};
        {
            std::unique_lock<std::mutex> lock(_mutex);
            ready = _ready;
            if (!ready) _then.emplace_back""", ['F08']),
    ('f08_async_ready', H, "    executor(std::move(pro));\n", "    immediate_executor(std::move(pro));\n", ['F08']),
    ('f08_async_twice', H, "    executor(std::move(pro));\n", "    if (pro.canceled()) return std::move(fut);\n    executor(std::move(pro));\n", None),
    ('f08_etp', H, "        return std::move(*this).recover(std::move(etp)._executor, std::move(etp)._f);\n    }\n\n    template <class F>\n    auto operator^(executor_task_pair<F> etp) && {",
     None, None),
    ('f08_package_imm', H, """        auto p = detail::make_shared_state<Sig>(
            std::move(executor), [_f""", """        auto p = detail::make_shared_state<Sig>(
            executor_t{immediate_executor}, [_f""", ['F08']),
    ('f08_ok_local', H, REC1, """            if (!ready) {
                std::pair<executor_t, task<void() noexcept>> entry{std::move(executor), std::move(pro)};
                _then.push_back(std::move(entry));
            }
        }

        if (ready) {
            auto e = std::move(executor);
            e(std::move(pro)); // cannot reference this after here
        }""", []),
    ('f08_ok_early', H, REC1, """            if (!_ready) {
                _then.emplace_back(std::move(executor), std::move(pro));
                return std::move(fut);
            }
        }
        (void)ready;
        executor(std::move(pro)); // cannot reference this after here""", []),
]
EDITS = [e for e in EDITS if e[3] is not None and e[4] is not None]
