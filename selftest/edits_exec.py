X = 'include/stlab/concurrency/default_executor.hpp'
S = 'include/stlab/concurrency/serial_queue.hpp'
T = 'include/stlab/concurrency/system_timer.hpp'
B = 'include/stlab/concurrency/executor_base.hpp'
P = 'src/pre_exit.cpp'
C = 'src/concurrency/default_executor.cpp'
POP = """        auto result = std::move(_q.front()._task);
        std::pop_heap(begin(_q), end(_q), element_t::greater());
        _q.pop_back();
        return result;"""
PUSH2 = """    void push(F&& f, std::size_t priority) {
        {
            lock_t lock{_mutex};
            _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
            std::push_heap(begin(_q), end(_q), element_t::greater());
        }"""
TRYP = """            lock_t lock{_mutex, std::try_to_lock};
            if (!lock) return false;
            _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
            std::push_heap(begin(_q), end(_q), element_t::greater());"""
RUN = """            if (!f) {
                bool done;
                std::tie(done, f) = _q[i].pop();
                if (done) break;
            }
            if (f) f(); // we can wake with no task."""
POPB = """        _waiting = false;
        if (_q.empty()) return {_done, nullptr};
        return {false, pop_not_empty()};"""
EXEC = """            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P)) return;
        }

        _q[i % _count].push(std::forward<F>(f), P);"""
TTAKE = """                std::pop_heap(begin(_timed_queue), end(_timed_queue), greater_first());
                task = std::move(_timed_queue.back().second);
                _timed_queue.pop_back();"""
TWAIT = """                while (std::chrono::steady_clock::now() < _timed_queue.front().first) {
                    auto when = _timed_queue.front().first;
                    _condition.wait_until(lock, when);
                    if (_stop) return;
                }"""
SINGLE = """        scope<lock_t>(_m, [&]() { f = pop_front_unsafe(_queue); });

        f();

        if (!empty()) _executor([_this(shared_from_this())]() noexcept { _this->single(); });"""
ALL = """        while (!local_queue.empty()) {
            pop_front_unsafe(local_queue)();
        }

        if (!empty())"""
SEMPTY = """        scope<lock_t>(_m, [&]() {
            empty = _queue.empty();

            if (empty) {
                _running = false;
            }
        });"""
ENQ = """            _queue.emplace_back(std::forward<F>(f));

            // A trick to get the value of _running within the lock scope, but then
            // use it outside the scope, after the lock has been released. It also
            // sets running to true if it is not yet; two birds, one stone.
            std::swap(running, _running);
        });"""
PPOP = """        auto result = _stack.back();
        _stack.pop_back();
        return result;"""
EDITS = [
    # ---- E01
    ('e01_run_twice', X, 'if (f) f(); // we can wake', 'if (f) { f(); f(); } // we can wake', ['E01']),
    ('e01_done_first', X, POPB, POPB.replace('if (_q.empty()) return', 'if (_done) return {true, nullptr};\n        if (_q.empty()) return'), ['E01']),
    ('e01_pop_twice', X, '            for (unsigned n = 0; n != _count && !f; ++n) {\n                f = _q[(i + n) % _count].try_pop();\n            }\n            if (!f) {\n                bool',
     '            for (unsigned n = 0; n != _count; ++n) {\n                f = _q[(i + n) % _count].try_pop();\n            }\n            if (!f) {\n                bool', ['E01']),
    ('e01_no_removal', X, POP, POP.replace('        _q.pop_back();\n', '        if (_q.size() > 4) _q.pop_back();\n'), ['E01']),
    ('e01_drop_on_done', X, RUN, RUN.replace('if (f) f();', 'if (f && !_q.empty()) f();'), ['E01']),
    ('e01_push_twice', X, EXEC, EXEC.replace(' return;', ' break;'), ['E01']),
    ('e01_try_push_ignored', X, EXEC, EXEC.replace('        _q[i % _count].push(std::forward<F>(f), P);', '        _q[i % _count].try_push(std::forward<F>(f), P);'), ['E01']),
    ('e01_expansion_drop', X, '                if (f) {\n                    f(); // we can wake with no task.\n                    continue;\n                }\n                if (_waiters[i - _count].wait()) break;',
     '                if (_waiters[i - _count].wait()) break;\n                if (f) {\n                    f(); // we can wake with no task.\n                    continue;\n                }', ['E01']),
    ('e01_timer_lost', T, TTAKE, TTAKE.replace('task = std::move(_timed_queue.back().second);', 'if (!_stop) task = std::move(_timed_queue.back().second);'), ['E01']),
    ('e01_serial_clear', S, ALL, ALL.replace('pop_front_unsafe(local_queue)();\n', 'pop_front_unsafe(local_queue)();\n            if (_queue.size() > 8) break;\n'), ['E01']),
    ('e01_ok_local', X, 'if (f) f(); // we can wake', 'if (f) { auto g = std::move(f); g(); } // we can wake', []),
    ('e01_ok_early', X, RUN, """            if (f) {
                f();
                continue;
            }
            auto r = _q[i].pop();
            if (r.first) break;
            if (r.second) r.second();""", []),
    ('e01_ok_struct', X, '            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P)) return;', '            auto& q = _q[(i + n) % _count];\n            const bool queued = q.try_push(std::forward<F>(f), P);\n            if (queued) return;', []),
    ('e01_ok_serial_range', S, ALL, ALL.replace('        while (!local_queue.empty()) {\n            pop_front_unsafe(local_queue)();\n        }', '        while (!local_queue.empty()) {\n            auto f = pop_front_unsafe(local_queue);\n            f();\n        }'), []),
    ('e01_ok_exchange', S, 'scope<lock_t>(_m, [&]() { std::swap(local_queue, _queue); });', 'scope<lock_t>(_m, [&]() { local_queue = std::move(_queue); _queue.clear(); });', []),
    # ---- E02
    ('e02_order', X, 'return b._priority < a._priority;', 'return a._priority < b._priority;', ['E02']),
    ('e02_nonstrict', X, 'return b._priority < a._priority;', 'return b._priority <= a._priority;', ['E02']),
    ('e02_back', X, POP, POP.replace('_q.front()._task', '_q.back()._task'), ['E02']),
    ('e02_no_push_heap', X, PUSH2, PUSH2.replace('            std::push_heap(begin(_q), end(_q), element_t::greater());\n', ''), ['E02']),
    ('e02_try_no_heap', X, TRYP, TRYP.replace('            std::push_heap', '            if (_q.size() > 2) std::push_heap'), ['E02']),
    ('e02_no_pop_heap', X, POP, POP.replace('        std::pop_heap(begin(_q), end(_q), element_t::greater());\n', ''), ['E02']),
    ('e02_key_count', X, 'return (priority << (sizeof(std::size_t) * CHAR_BIT - 2)) | count;', 'return (count << 2) | priority;', ['E02']),
    ('e02_key_noinc', X, PUSH2, PUSH2.replace('_count++', '_count'), ['E02']),
    ('e02_key_dec', X, PUSH2, PUSH2.replace('_count++', '_count--'), ['E02']),
    ('e02_levels', X, 'inline constexpr auto low_executor = detail::executor_type<detail::executor_priority::low>{};', 'inline constexpr auto low_executor = detail::executor_type<detail::executor_priority::medium>{};', ['E02']),
    ('e02_enum', X, 'enum class executor_priority : std::uint8_t { high, medium, low };', 'enum class executor_priority : std::uint8_t { low, medium, high };', ['E02']),
    ('e02_timer_order', T, 'return x.first > y.first;', 'return x.first < y.first;', ['E02']),
    ('e02_timer_front', T, TTAKE, TTAKE.replace('back().second', 'front().second'), ['E02']),
    ('e02_ok_popfirst', X, POP, """        std::pop_heap(begin(_q), end(_q), element_t::greater());
        auto result = std::move(_q.back()._task);
        _q.pop_back();
        return result;""", []),
    ('e02_ok_gt', X, 'return b._priority < a._priority;', 'return a._priority > b._priority;', []),
    ('e02_ok_not', X, 'return b._priority < a._priority;', 'return !(a._priority <= b._priority);', []),
    ('e02_ok_helper', X, [PUSH2, TRYP, '    // Must be called under a lock with a non-empty _q, always returns a valid task\n'],
     [PUSH2.replace("""            _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
            std::push_heap(begin(_q), end(_q), element_t::greater());""", "            insert(std::forward<F>(f), priority);"),
      TRYP.replace("""            _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
            std::push_heap(begin(_q), end(_q), element_t::greater());""", "            insert(std::forward<F>(f), priority);"),
      """    template <class F>
    void insert(F&& f, std::size_t priority) {
        const auto key = merge_priority_count(priority, _count);
        ++_count;
        _q.emplace_back(std::forward<F>(f), key);
        std::push_heap(_q.begin(), _q.end(), typename element_t::greater{});
    }
    // Must be called under a lock with a non-empty _q, always returns a valid task
"""], []),
    # ---- E06
    ('e06_no_reset', S, SEMPTY, SEMPTY.replace('_running = false;', ';'), ['E06']),
    ('e06_reset_always', S, SEMPTY, SEMPTY.replace("""            if (empty) {
                _running = false;
            }""", "            _running = false;"), ['E06']),
    ('e06_reset_outside', S, SEMPTY, SEMPTY.replace("""
            if (empty) {
                _running = false;
            }
        });""", """        });
        if (empty) scope<lock_t>(_m, [&]() { _running = false; });"""), ['E06']),
    ('e06_always_schedule', S, 'if (!running) {\n            _executor', 'if (!running || _queue.size() == 7) {\n            _executor', ['E06']),
    ('e06_no_set', S, ENQ, ENQ.replace('std::swap(running, _running);', 'running = _running;'), ['E06']),
    ('e06_split', S, ENQ, ENQ.replace("            std::swap(running, _running);\n        });", "            running = _running;\n        });\n        scope<lock_t>(_m, [&]() { _running = true; });"), ['E06']),
    ('e06_lifo', S, '_queue.emplace_back(std::forward<F>(f));', '_queue.emplace_front(std::forward<F>(f));', ['E06']),
    ('e06_lifo2', S, '        auto f = std::move(q.front());\n        q.pop_front();', '        auto f = std::move(q.back());\n        q.pop_back();', ['E06']),
    ('e06_schedule_first', S, SINGLE, """        bool more{false};
        scope<lock_t>(_m, [&]() { f = pop_front_unsafe(_queue); more = !_queue.empty(); if (!more) _running = false; });

        f();

        if (more) _executor([_this(shared_from_this())]() noexcept { _this->single(); });""", ['E06']),
    ('e06_all_stop', S, ALL, ALL.replace('if (!empty())', 'if (empty()) return;\n        if (local_queue.empty() && _queue.size() > 1)'), ['E06']),
    ('e06_raw', S, '_executor([_this(shared_from_this())]() noexcept { _this->kickstart(); });', '_executor([this]() noexcept { this->kickstart(); });', ['E06']),
    ('e06_ok_if', S, ENQ, ENQ.replace('std::swap(running, _running);', 'running = _running;\n            if (!_running) _running = true;'), []),
    ('e06_ok_exchange', S, [ENQ, 'if (!running) {\n            _executor'], [ENQ.replace('std::swap(running, _running);', 'running = std::exchange(_running, true);'), 'if (running) return;\n        {\n            _executor'], []),
    ('e06_ok_lock', S, SEMPTY, """        {
            lock_t lock{_m};
            empty = _queue.empty();
            _running = !empty;
        }""", []),
    ('e06_ok_return', S, SINGLE, SINGLE.replace("if (!empty()) _executor", "if (empty()) return;\n        _executor"), []),
    # ---- E07
    ('e07_no_recheck', T, TWAIT, """                if (std::chrono::steady_clock::now() < _timed_queue.front().first) {
                    auto when = _timed_queue.front().first;
                    _condition.wait_until(lock, when);
                    if (_stop) return;
                }""", ['E07']),
    ('e07_inverted', T, TWAIT, TWAIT.replace('while (std::chrono::steady_clock::now() < _t', 'while (std::chrono::steady_clock::now() > _t'), ['E07']),
    ('e07_untimed', T, TWAIT, TWAIT.replace('_condition.wait_until(lock, when);', '(void)when; _condition.wait(lock);'), ['E07']),
    ('e07_half', T, 'std::chrono::steady_clock::now() + duration, std::forward<F>(f)', 'std::chrono::steady_clock::now() + duration / 2, std::forward<F>(f)', ['E07']),
    ('e07_no_delay', T, 'std::chrono::steady_clock::now() + duration, std::forward<F>(f)', 'std::chrono::steady_clock::now(), std::forward<F>(f)', ['E07']),
    ('e07_cast', T, 'std::chrono::steady_clock::now() + duration, std::forward<F>(f)', 'std::chrono::steady_clock::now() + std::chrono::duration_cast<std::chrono::milliseconds>(duration), std::forward<F>(f)', ['E07']),
    ('e07_now', B, '            _executor(std::move(f));\n    };', '            _executor(std::move(f));\n    };', []),
    ('e07_direct', B, '        if (_duration != std::chrono::duration<Rep, Per>{})\n            system_timer(', '        if (_executor)\n            system_timer(', ['E07']),
    ('e07_ok_swap', T, TWAIT, """                while (_timed_queue.front().first > std::chrono::steady_clock::now()) {
                    _condition.wait_until(lock, _timed_queue.front().first);
                    if (_stop) return;
                }""", []),
    ('e07_ok_loop', T, TWAIT, """                while (true) {
                    const auto when = _timed_queue.front().first;
                    const auto now = std::chrono::steady_clock::now();
                    if (now >= when) break;
                    _condition.wait_until(lock, when);
                    if (_stop) return;
                }""", []),
    ('e07_ok_when', T, '        lock_t lock(_timed_queue_mutex);\n        _timed_queue.emplace_back(std::chrono::steady_clock::now() + duration, std::forward<F>(f));', '        const auto when = std::chrono::steady_clock::now() + duration;\n        lock_t lock(_timed_queue_mutex);\n        _timed_queue.emplace_back(when, std::forward<F>(f));', []),
    # ---- E08
    ('e08_fifo', P, PPOP, '        auto result = _stack.front();\n        _stack.erase(_stack.begin());\n        return result;', ['E08']),
    ('e08_no_pop', P, PPOP, PPOP.replace('_stack.pop_back();', 'if (_stack.size() > 1) _stack.pop_back();'), ['E08']),
    ('e08_locked', P, ['    while (auto f = _s.pop()) {\n        f();\n    };', PPOP], ['    while (auto f = _s.pop()) {\n        pre_exit_stack_t::lock_t l{_s._mutex};\n        f();\n    };', PPOP], ['E08']),
    ('e08_once', P, '    while (auto f = _s.pop()) {\n        f();\n    };', '    if (auto f = _s.pop()) {\n        f();\n    };', ['E08']),
    ('e08_close_early', P, PPOP, '        auto result = _stack.back();\n        _stack.pop_back();\n        _closed = _stack.size() == 0;\n        if (_stack.size() == 0) _closed = true;\n        return result;', ['E08']),
    ('e08_twice', P, '        f();\n    };', '        f();\n        if (!_s._closed) f();\n    };', ['E08']),
    ('e08_not_joined', C, 'at_pre_exit([]() noexcept { only_task_system.join(); });', 'at_pre_exit([]() noexcept { only_task_system.wake(); });', ['E08']),
    ('e08_no_handler', C, '        at_pre_exit([]() noexcept { only_task_system.join(); });\n        return nullptr;', '        return nullptr;', ['E08']),
    ('e08_waiters', X, '        for (auto& e : _waiters)\n            e.done();\n', '', ['E08']),
    ('e08_done_some', X, '        for (auto& e : _q)\n            e.done();\n', '        for (auto& e : _q)\n            if (!e.wake()) e.done();\n', ['E08']),
    ('e08_ok_loop', P, '    while (auto f = _s.pop()) {\n        f();\n    };', '    for (;;) {\n        auto f = _s.pop();\n        if (f == nullptr) break;\n        f();\n    }', []),
]
EDITS += [
    ('e07_consume', B, '_executor = _executor]() mutable noexcept', '_executor = std::move(_executor)]() mutable noexcept', ['E07']),
]
