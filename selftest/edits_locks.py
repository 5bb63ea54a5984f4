C = 'include/stlab/concurrency/'
F, Q, S, T, H = C + 'future.hpp', C + 'default_executor.hpp', C + 'serial_queue.hpp', C + 'system_timer.hpp', C + 'channel.hpp'
P = 'src/pre_exit.cpp'
WA = """            if (!_exception) {
                assign_ready_future<FF>::assign(std::get<index>(_args), std::move(f));
                if (--_remaining == 0) run = true;
            }
        }
        if (run) _f();
"""
EDITS = [
    ('lk_wa_under', F, WA, WA.replace('        }\n        if (run) _f();\n', '            if (run) _f();\n        }\n'), ['L01']),
    ('lk_wa_out', F, WA, """            if (!_exception) assign_ready_future<FF>::assign(std::get<index>(_args), std::move(f));
            run = !_exception;
        }
        if (run) run = --_remaining == 0;
        if (run) _f();
""", ['L02', 'F09']),
    ('lk_wa_ok', F, WA, """            if (_exception) return;
            assign_ready_future<FF>::assign(std::get<index>(_args), std::move(f));
            run = --_remaining == 0;
        }
        if (!run) return;
        _f();
""", []),
    ('lk_wa_hold', F, """            std::array<future<void>, std::tuple_size_v<Args>> cancel; // released without the lock
            std::unique_lock<std::mutex> lock{_guard};
""", """            std::unique_lock<std::mutex> lock{_guard};
            std::array<future<void>, std::tuple_size_v<Args>> cancel;
""", ['L01']),
    ('lk_size', Q, '        lock_t lock{_mutex};\n        return _threads.size() - _count;', '        return _threads.size() - _count;', ['L02']),
    ('lk_push_nolock', Q, """            lock_t lock{_mutex};
            _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));""", """            const auto n = merge_priority_count(priority, _count++);
            lock_t lock{_mutex};
            _q.emplace_back(std::forward<F>(f), n);""", ['L02']),
    ('lk_try_empty', Q, '        lock_t lock{_mutex, std::try_to_lock};\n        if (!lock || _q.empty()) return nullptr;', '        if (_q.empty()) return nullptr;\n        lock_t lock{_mutex, std::try_to_lock};\n        if (!lock || _q.empty()) return nullptr;', ['L02']),
    ('lk_try_notowned', Q, '        if (!lock || _q.empty()) return nullptr;', '        if (_q.empty()) return nullptr;', ['L02']),
    ('lk_done_nolock', Q, """        {
            lock_t lock{_mutex};
            _done = true;
        }
        _ready.notify_one();
    }

    template <typename F>
    bool try_push""", """        _done = true;
        _ready.notify_one();
    }

    template <typename F>
    bool try_push""", ['L02', 'L03']),
    ('lk_join_under', Q, """                thread = std::move(_threads[n]);
            }
            thread.join();""", """                thread = std::move(_threads[n]);
                thread.join();
            }""", ['L04']),
    ('lk_pop_nowait', Q, '        while (_q.empty() && !_done && _waiting)\n            _ready.wait(lock);', '        if (_q.empty() && !_done && _waiting)\n            _ready.wait(lock);', ['L03']),
    ('lk_pop_pred', Q, '        while (_q.empty() && !_done && _waiting)\n            _ready.wait(lock);', '        _ready.wait(lock, [this] { return !_q.empty() || _done || !_waiting; });', []),
    ('lk_pop_done', Q, 'while (_q.empty() && !_done && _waiting)', 'while (_q.empty() && _waiting)', ['L03']),
    ('lk_wake_nonotify', Q, """            _waiting = false; // triggers wake
        }
        _ready.notify_one();""", """            _waiting = false; // triggers wake
        }""", ['L03']),
    ('lk_sq_running', S, '        if (!running) {\n            _executor(', '        if (!running || !_running) {\n            _executor(', ['L02']),
    ('lk_sq_kick', S, """            std::swap(running, _running);
        });

        if (!running) {
            _executor([_this(shared_from_this())]() noexcept { _this->kickstart(); });
        }
""", """            std::swap(running, _running);
            if (!running) _executor([_this(shared_from_this())]() noexcept { _this->kickstart(); });
        });
""", ['L01']),
    ('lk_sq_single', S, '        scope<lock_t>(_m, [&]() { f = pop_front_unsafe(_queue); });\n\n        f();\n', '        scope<lock_t>(_m, [&]() {\n            f = pop_front_unsafe(_queue);\n            f();\n        });\n', ['L01']),
    ('lk_sq_empty', S, '        while (!local_queue.empty()) {', '        if (_queue.empty() && local_queue.empty()) return;\n        while (!local_queue.empty()) {', ['L02']),
    ('lk_ti_under', T, """                _timed_queue.pop_back();
            }

            task();""", """                _timed_queue.pop_back();
                task();
            }
""", ['L01']),
    ('lk_ti_stop', T, """        {
            lock_t lock(_timed_queue_mutex);
            _stop = true;
        }
        _condition.notify_one();
        _timed_queue_thread.join();""", """        {
            lock_t lock(_timed_queue_mutex);
            _stop = true;
            _condition.notify_one();
            _timed_queue_thread.join();
        }""", ['L04']),
    ('lk_ti_join2', T, '        _condition.notify_one();\n        _timed_queue_thread.join();', '        _timed_queue_thread.join();\n        _condition.notify_one();', ['L03']),
    ('lk_ti_stopn', T, """        {
            lock_t lock(_timed_queue_mutex);
            _stop = true;
        }
        _condition""", """        _stop = true;
        _condition""", ['L03']),
    ('lk_ti_if', T, '                while (_timed_queue.empty() && !_stop)', '                if (_timed_queue.empty() && !_stop)', ['L03']),
    ('lk_pe_run', P, """    while (auto f = _s.pop()) {
        f();
    };""", """    while (auto f = _s.pop()) {
        std::lock_guard<std::mutex> l{_s._mutex};
        f();
    };""", ['L01']),
    ('lk_pe_empty', P, '        lock_t lock{_mutex};\n        if (_stack.empty()) {', '        if (_stack.empty()) return nullptr;\n        lock_t lock{_mutex};\n        if (_stack.empty()) {', ['L02']),
    ('lk_pe_push', P, '        _stack.push_back(f);', '        lock.unlock();\n        _stack.push_back(f);', ['L02']),
]
