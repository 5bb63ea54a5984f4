"""Edits of await.hpp for F12."""
A = 'include/stlab/concurrency/await.hpp'
ST = """            std::unique_lock<std::mutex> lock{m};
            result = std::move(r);
            condition.notify_one(); // must notify under lock
"""
WT = "    invoke_waiting([&] { condition.wait(lock, [&] { return result.is_ready(); }); });\n    return std::move(result).get_ready();"
SET = """            std::unique_lock<std::mutex> lock{_mutex};
            if (_timed_out) return std::forward<F>(r);
            _result = std::forward<F>(r);
        }
        _condition.notify_one();
"""
WF = """        std::unique_lock<std::mutex> lock{_mutex};
        _timed_out = !invoke_waiting(
            [&] { return _condition.wait_for(lock, timeout, [&] { return _result.valid(); }); });
        return _timed_out ? future<T>{} : std::move(_result);
"""
IW = "    if (!detail::pts().wake()) detail::pts().add_thread();\n"
EDITS = [
    ('a_notify_unlocked', A, ST + "        }\n", "            std::unique_lock<std::mutex> lock{m};\n            result = std::move(r);\n        }\n        condition.notify_one();\n", ['F12']),
    ('a_notify_first', A, ST, "            std::unique_lock<std::mutex> lock{m};\n            condition.notify_one();\n            result = std::move(r);\n", ['F12']),
    ('a_store_unlocked', A, ST, "            result = std::move(r);\n            std::unique_lock<std::mutex> lock{m};\n            condition.notify_one();\n", ['F12']),
    ('a_no_notify', A, "            condition.notify_one(); // must notify under lock\n", "", ['F12']),
    ('a_no_store', A, "            result = std::move(r);\n", "            (void)r;\n", ['F12']),
    ('a_wait_pred', A, WT, "    invoke_waiting([&] { condition.wait(lock); });\n    return std::move(result).get_ready();", ['F12']),
    ('a_pred_inv', A, "return result.is_ready(); }); });", "return !result.is_ready(); }); });", ['F12']),
    ('a_ready_inv', A, "    if (x.is_ready()) return std::move(x).get_ready(); // if ready, done", "    if (!x.is_ready()) return std::move(x).get_ready();", ['F12']),
    ('a_no_wait', A, WT, "    if (!result.is_ready()) invoke_waiting([&] { condition.wait_for(lock, std::chrono::seconds(60), [&] { return result.is_ready(); }); });\n    return std::move(result).get_ready();", ['F12']),
    ('a_wait_direct', A, WT, "    condition.wait(lock, [&] { return result.is_ready(); });\n    return std::move(result).get_ready();", ['F12']),
    ('a_hold_reset', A, WT, "    hold.reset();\n" + WT, ['F12']),
    ('a_same_loop', A, WT, "    invoke_waiting([&] { while (!result.is_ready()) condition.wait(lock); });\n    return std::move(result).get_ready();", []),
    ('a_same_guard', A, ST, ST.replace('unique_lock<std::mutex>', 'lock_guard<std::mutex>').replace('notify_one', 'notify_all'), []),
    ('a_same_if', A, WT, "    if (!result.is_ready()) invoke_waiting([&] { condition.wait(lock, [&] { return result.is_ready(); }); });\n    return std::move(result).get_ready();", []),
    ('a_wake_ignored', A, IW, "    detail::pts().wake();\n", ['F12']),
    ('a_wake_inv', A, IW, "    if (detail::pts().wake()) detail::pts().add_thread();\n", ['F12']),
    ('a_wake_late', A, IW, "    struct w { ~w() { if (!detail::pts().wake()) detail::pts().add_thread(); } } w_;\n", ['F12']),
    ('a_wake_never', A, IW, "", ['F12']),
    ('a_same_wake', A, IW, "    auto& s = detail::pts();\n    const bool woken = s.wake();\n    if (woken == false) s.add_thread();\n", []),
    ('a_same_always', A, IW, "    detail::pts().wake();\n    detail::pts().add_thread();\n", []),
    ('a_set_blind', A, "            if (_timed_out) return std::forward<F>(r);\n", "", ['F12']),
    ('a_set_inv', A, "            if (_timed_out) return", "            if (!_timed_out) return", ['F12']),
    ('a_set_unlocked', A, SET, "            if (_timed_out) return std::forward<F>(r);\n            std::unique_lock<std::mutex> lock{_mutex};\n            _result = std::forward<F>(r);\n        }\n        _condition.notify_one();\n", ['F12']),
    ('a_set_two', A, SET, "            {\n                std::unique_lock<std::mutex> lock{_mutex};\n                if (_timed_out) return std::forward<F>(r);\n            }\n            std::unique_lock<std::mutex> lock{_mutex};\n            _result = std::forward<F>(r);\n        }\n        _condition.notify_one();\n", ['F12']),
    ('a_set_no_notify', A, "        _condition.notify_one();\n        /*", "        /*", ['F12']),
    ('a_set_invalid', A, """        return make_exceptional_future<T>(
            std::make_exception_ptr(std::runtime_error("not an error")), immediate_executor);
    }

    auto wait""", "        return {};\n    }\n\n    auto wait", ['F12']),
    ('a_set_locked', A, SET, "            std::unique_lock<std::mutex> lock{_mutex};\n            if (_timed_out) return std::forward<F>(r);\n            _result = std::forward<F>(r);\n            _condition.notify_one();\n        }\n", []),
    ('a_wf_inv', A, "        _timed_out = !invoke_waiting(", "        _timed_out = invoke_waiting(", ['F12']),
    ('a_wf_never', A, WF, "        std::unique_lock<std::mutex> lock{_mutex};\n        bool out = !invoke_waiting(\n            [&] { return _condition.wait_for(lock, timeout, [&] { return _result.valid(); }); });\n        return out ? future<T>{} : std::move(_result);\n", ['F12']),
    ('a_wf_unlocked', A, WF, "        std::unique_lock<std::mutex> lock{_mutex};\n        bool out = !invoke_waiting(\n            [&] { return _condition.wait_for(lock, timeout, [&] { return _result.valid(); }); });\n        lock.unlock();\n        _timed_out = out;\n        return out ? future<T>{} : std::move(_result);\n", ['F12']),
    ('a_wf_same', A, WF, "        std::unique_lock<std::mutex> lock{_mutex};\n        bool got = invoke_waiting(\n            [&] { return _condition.wait_for(lock, timeout, [&] { return _result.valid(); }); });\n        if (got) return std::move(_result);\n        _timed_out = true;\n        return {};\n", []),
    ('a_wf_other', A, "        return _timed_out ? future<T>{} : std::move(_result);", "        return future<T>{};", ['F12']),
    ('a_wf_pred', A, "return _condition.wait_for(lock, timeout, [&] { return _result.valid(); });", "return _condition.wait_for(lock, timeout) == std::cv_status::no_timeout;", ['F12']),
    ('a_out_hold', A, "    return result.valid() ? std::move(result) : std::move(hold);", "    return result.valid() ? std::move(hold) : std::move(result);", ['F12']),
    ('a_out_result', A, "    return result.valid() ? std::move(result) : std::move(hold);", "    return result;", ['F12']),
    ('a_out_ready', A, "    return result.valid() ? std::move(result) : std::move(hold);", "    return hold.is_ready() ? std::move(hold) : std::move(result);", ['F12']),
    ('a_out_same', A, "    return result.valid() ? std::move(result) : std::move(hold);", "    if (!result.valid()) return hold;\n    return result;", []),
    ('a_gone_lost', A, "        if (auto p = _p.lock()) return p->set(std::forward<decltype(r)>(r));\n        return std::forward<decltype(r)>(r);", "        if (auto p = _p.lock()) return p->set(std::forward<decltype(r)>(r));\n        return future<T>{};", ['F12']),
    ('a_gone_late', A, "        if (auto p = _p.lock()) return p->set(std::forward<decltype(r)>(r));", "        if (!_p.expired()) return _p.lock()->set(std::forward<decltype(r)>(r));", ['F12']),
    ('a_form_lost', A, "    return await_for(std::move(x), timeout);", "    await_for(std::move(x), timeout);\n    return x;", ['F12']),
    ('a_form_noret', A, "    return await_for(std::move(x), timeout);", "    await_for(std::move(x), timeout);", ['F12']),
    ('a_form_same', A, "    return await_for(std::move(x), timeout);", "    auto r = await_for(std::move(x), timeout);\n    return r;", []),
]
