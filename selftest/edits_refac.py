"""Refactorings (nothing may report) over the concurrency headers, in the style of a maintainer."""
CH = "include/stlab/concurrency/channel.hpp"
DE = "include/stlab/concurrency/default_executor.hpp"
SQ = "include/stlab/concurrency/serial_queue.hpp"

_TB = """                    execute_at(duration, _executor)(
                        [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
                            auto _this = _weak_this.lock();
                            if (!_this) return;
                            _this->try_broadcast();
                        });
            }
"""
_TMP = """            auto tmp = get_process_state(_process);
            const auto& state = tmp.first;
            const auto& duration = tmp.second;
"""
_BC = """    template <typename... A>
    void broadcast(A&&... args) {"""
_HEAD = """        lock_t lock(_timeout_function_control, std::try_to_lock);
        if (!lock) {
            run();
            return;
        }
        _timeout_function_active = false;
"""

EDITS = [
    ("rf_front_local", CH, """    auto front() { return std::make_tuple(std::move(_queue.front())); }""",
     """    auto front() {
        auto& next = _queue.front();
        return value_type(std::move(next));
    }""", []),
    ("rf_rr_exchange", CH, """        _popped_index = _index;
        ++_index;
        if (_index == Size) _index = 0; // restart from the first sender
""", """        _popped_index = std::exchange(_index, (_index + 1) % Size);
""", []),
    ("rf_n_first", CH, """        bool do_run;
        bool do_final;
        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            do_run = !_queue.empty() || _process_close_queue;
            _process_running = do_run;
            do_final = _process_final;
        }
""", """        const auto [do_run, do_final] = settle();
""" , []),
    ("rf_bc_structured", CH, [_TMP, _TMP], ["""            const auto [state, duration] = get_process_state(_process);
"""] * 2, []),
    ("rf_start_helper", CH, ["""            std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
            _shared_process._queue.template append<I>(
                std::forward<U>(u)); // TODO (sparent) : overwrite here.
            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
                                                          _shared_process._timeout_function_active);

            _shared_process._process_running = _shared_process._process_running || do_run;
        }
        if (do_run) _shared_process.run();
""", _BC], ["""            std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
            _shared_process._queue.template append<I>(
                std::forward<U>(u)); // TODO (sparent) : overwrite here.
            do_run = _shared_process.try_start(_shared_process._timeout_function_active);
        }
        if (do_run) _shared_process.run();
""", """    // call with the lock of the process
    auto try_start(bool waiting) -> bool {
        if (_receiver_count != 0) return false;
        if (_process_running && !waiting) return false;
        _process_running = true;
        return true;
    }

""" + _BC], []),
    ("rf_remove_sender_early", CH, """        if (--_shared_process._sender_count == 0) {
            bool do_run;
            {
                std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
                _shared_process._process_close_queue = true;
                do_run = !_shared_process._receiver_count && !_shared_process._process_running;
                _shared_process._process_running = _shared_process._process_running || do_run;
            }
            if (do_run) _shared_process.run();
        }
""", """        auto& process = _shared_process;
        if (--process._sender_count != 0) return;

        std::unique_lock<std::mutex> lock(process._process_mutex);
        process._process_close_queue = true;
        if (process._receiver_count || process._process_running) return;
        process._process_running = true;
        lock.unlock();

        process.run();
""", []),
    ("rf_final_helper", CH, ["""        bool final;
        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            final = _process_final;
        }
        if (!final) {
            clear_to_send();""", """        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            if (_process_final) {
                return;
            }
        }

        bool do_run = false;
""", _BC], ["""        if (!is_final()) {
            clear_to_send();""", """        if (is_final()) return;

        bool do_run = false;
""", """    auto is_final() -> bool {
        std::unique_lock<std::mutex> lock(_process_mutex);
        return _process_final;
    }

""" + _BC], []),
    ("rf_cts_early", CH, """            if (!_process_suspend_count) {
                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
                    do_run = true;
                } else {
                    _process_running = false;
                    do_run = false;
                }
            }
""", """            if (_process_suspend_count == 0) {
                do_run =
                    ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
                _process_running = do_run;
            }
""", []),
    ("rf_suspend_atomic", CH, """        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            if (suspend_process) {
                /*
                    Suspend for however many downstream processes we have + 1 for this process -
                   that ensures that we are not kicked to run while still broadcasting.
                */
                _process_suspend_count = n + 1;
            } else
                _process_suspend_count = 1;
        }
""", """        // Suspend for however many downstream processes we have + 1 for this process - that
        // ensures that we are not kicked to run while still broadcasting.
        const std::size_t suspend = suspend_process ? n + 1 : std::size_t{1};
        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            _process_suspend_count = suspend;
        }
""", []),
    ("rf_delayed_helper", CH, [_TB, _TB, _BC], ["""                    yield_after(duration);
            }
""", """                    yield_after(duration);
            }
""", """    template <typename Duration>
    void yield_after(const Duration& duration) {
        execute_at(duration, _executor)(
            [_weak_this = make_weak_ptr(this->shared_from_this())]() noexcept {
                if (auto _this = _weak_this.lock()) _this->try_broadcast();
            });
    }

""" + _BC], []),
    ("rf_step_head", CH, [_HEAD, _HEAD, _BC], ["""        lock_t lock = enter_step();
        if (!lock) return;
""", """        lock_t lock = enter_step();
        if (!lock) return;
""", """    auto enter_step() -> lock_t {
        lock_t lock(_timeout_function_control, std::try_to_lock);
        if (lock.owns_lock())
            _timeout_function_active = false;
        else
            run();
        return lock;
    }

""" + _BC], []),
    ("rf_timeout_do", CH, """                        while (true) {
                            lock_t lock(_this->_timeout_function_control, std::try_to_lock);
                            if (!lock) continue;

                            // we were cancelled
                            if (get_process_state(_this->_process).first != process_state::yield) {
                                _this->try_broadcast();
                                _this->_timeout_function_active = false;
                            }
                            return;
                        }
""", """                        lock_t lock(_this->_timeout_function_control, std::defer_lock);
                        while (!lock.try_lock()) {
                        }

                        // we were cancelled
                        if (get_process_state(_this->_process).first == process_state::yield)
                            return;
                        _this->try_broadcast();
                        _this->_timeout_function_active = false;
""", []),
    ("rf_run_if", CH, """            auto p = _p.lock();
            if (p) p->template step<T>();
""", """            if (const auto p = _p.lock()) p->template step<T>();
""", []),
    ("rf_pop_early", CH, """        if (_queue.empty()) {
            std::swap(do_close, _process_close_queue);
            _process_final = do_close; // unravel after any yield
        } else {
            message = std::move(_queue.front());
            _queue.pop_front();
            auto queue_size = _queue.size();
            for (auto index = 0u; index < queue_size.size(); ++index)
                do_cts[index] = queue_size[index] <= (_process_buffer_size - 1);
        }
        return std::make_tuple(std::move(message), do_cts, do_close);
""", """        if (_queue.empty()) {
            do_close = std::exchange(_process_close_queue, false);
            _process_final = do_close; // unravel after any yield
            return std::make_tuple(std::move(message), do_cts, do_close);
        }

        message.emplace(_queue.front());
        _queue.pop_front();
        const auto queue_size = _queue.size();
        const std::size_t limit = _process_buffer_size - 1;
        std::size_t index = 0;
        for (const auto size : queue_size)
            do_cts[index++] = size <= limit;
        return std::make_tuple(std::move(message), do_cts, do_close);
""", []),
    ("rf_duration_helper", CH, ["""        try {
            while (get_process_state(_process).first == process_state::await) {
                if (!dequeue()) break;
            }
"""], ["""        try {
            bool more = true;
            while (more && get_process_state(_process).first == process_state::await) {
                more = dequeue();
            }
"""], []),
    ("rf_downstream_send", CH, """        stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });
""", """        auto first = _data.begin();
        for (std::size_t i = 0; i != n; ++i, ++first)
            (*first)(args...);
""", []),
    ("rf_free_buffer", CH, """        const std::size_t size = _shared_process._queue.template queue_size<I>();
        return size < buffer_size ? buffer_size - size : 0; // senders can exceed the buffer
""", """        const std::size_t size = _shared_process._queue.template queue_size<I>();
        return buffer_size - std::min(buffer_size, size); // senders can exceed the buffer
""", []),
    ("rf_map_noscope", CH, """        {
            std::unique_lock<std::mutex> lock(_downstream_mutex);
            _downstream.append_receiver(std::move(f));
        }
""", """        const std::lock_guard<std::mutex> lock(_downstream_mutex);
        _downstream.append_receiver(std::move(f));
""", []),
    # executors
    ("rf_run_find", DE, ["""            task<void() noexcept> f;

            for (unsigned n = 0; n != _count && !f; ++n) {
                f = _q[(i + n) % _count].try_pop();
            }
            if (!f) {
                bool done;
""", """                task<void() noexcept> f;

                for (unsigned n = 0; n != _count && !f; ++n) {
                    f = _q[(i + n) % _count].try_pop();
                }

                if (f) {
""", """    std::size_t waiters_size() {"""], ["""            task<void() noexcept> f = steal(i);
            if (!f) {
                bool done;
""", """                auto f = steal(static_cast<unsigned>(i));
                if (f) {
""", """    auto steal(unsigned i) -> task<void() noexcept> {
        for (unsigned n = 0; n != _count; ++n) {
            if (auto f = _q[(i + n) % _count].try_pop()) return f;
        }
        return nullptr;
    }

    std::size_t waiters_size() {"""], []),
    ("rf_run_structured", DE, """                bool done;
                std::tie(done, f) = _q[i].pop();
                if (done) break;
""", """                auto [done, next] = _q[i].pop();
                if (done) break;
                f = std::move(next);
""", []),
    ("rf_push_helper", DE, ["""            if (!lock) return false;
            _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
            std::push_heap(begin(_q), end(_q), element_t::greater());
""", """            lock_t lock{_mutex};
            _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count++));
            std::push_heap(begin(_q), end(_q), element_t::greater());
""", """    // Must be called under a lock with a non-empty _q"""], ["""            if (!lock) return false;
            insert(std::forward<F>(f), priority);
""", """            lock_t lock{_mutex};
            insert(std::forward<F>(f), priority);
""", """    template <typename F>
    void insert(F&& f, std::size_t priority) {
        _q.emplace_back(std::forward<F>(f), merge_priority_count(priority, _count));
        ++_count;
        std::push_heap(_q.begin(), _q.end(), typename element_t::greater());
    }

    // Must be called under a lock with a non-empty _q"""], []),
    ("rf_wait_pred", DE, """        _waiting = true;
        while (_q.empty() && !_done && _waiting)
            _ready.wait(lock);
        _waiting = false;
""", """        _waiting = true;
        _ready.wait(lock, [this] { return !_q.empty() || _done || !_waiting; });
        _waiting = false;
""", []),
    ("rf_wake_algo", DE, """        for (auto& e : _q) {
            if (e.wake()) return true;
        }
        for (std::size_t n = 0, l = waiters_size(); n != l; ++n) {
            if (_waiters[n].wake()) return true;
        }
        return false;
""", """        if (std::any_of(_q.begin(), _q.end(), [](auto& e) { return e.wake(); })) return true;
        const auto first = _waiters.begin();
        const auto last = first + static_cast<std::ptrdiff_t>(waiters_size());
        return std::any_of(first, last, [](auto& e) { return e.wake(); });
""", []),
    ("rf_join_algo", DE, """        for (std::size_t n = 0;; ++n) {
            std::thread thread;
            {
                lock_t lock{_mutex};
                if (n == _threads.size()) break;
                thread = std::move(_threads[n]);
            }
            thread.join();
        }
""", """        const auto take = [this](std::size_t n) {
            lock_t lock{_mutex};
            return n < _threads.size() ? std::move(_threads[n]) : std::thread();
        };
        for (std::size_t n = 0;; ++n) {
            auto thread = take(n);
            if (!thread.joinable()) break;
            thread.join();
        }
""", []),
    ("rf_execute_i", DE, """        auto i = _index++;

        for (unsigned n = 0; n != _count; ++n) {
            if (_q[(i + n) % _count].try_push(std::forward<F>(f), P)) return;
        }

        _q[i % _count].push(std::forward<F>(f), P);
""", """        const unsigned i = _index.fetch_add(1) % _count;

        for (unsigned n = 0; n != _count; ++n) {
            auto& queue = _q[(i + n) % _count];
            if (queue.try_push(std::forward<F>(f), P)) return;
        }

        _q[i].push(std::forward<F>(f), P);
""", []),
    ("rf_sq_guard", SQ, """        bool running(true);

        scope<lock_t>(_m, [&]() {
            _queue.emplace_back(std::forward<F>(f));

            // A trick to get the value of _running within the lock scope, but then
            // use it outside the scope, after the lock has been released. It also
            // sets running to true if it is not yet; two birds, one stone.
            std::swap(running, _running);
        });

        if (!running) {
            _executor([_this(shared_from_this())]() noexcept { _this->kickstart(); });
        }
""", """        bool running;
        {
            lock_t lock(_m);
            _queue.emplace_back(std::forward<F>(f));
            running = std::exchange(_running, true);
        }
        if (running) return;
        _executor([_this = shared_from_this()]() noexcept { _this->kickstart(); });
""", []),
    ("rf_sq_empty", SQ, """        bool empty;

        scope<lock_t>(_m, [&]() {
            empty = _queue.empty();

            if (empty) {
                _running = false;
            }
        });

        return empty;
""", """        const lock_t lock(_m);
        _running = !_queue.empty();
        return !_running;
""", []),
    ("rf_sq_all_for", SQ, """        while (!local_queue.empty()) {
            pop_front_unsafe(local_queue)();
        }
""", """        for (; !local_queue.empty(); local_queue.pop_front()) {
            auto f = std::move(local_queue.front());
            std::move(f)();
        }
""", []),
    ("rf_sq_single", SQ, """        task<void()> f;

        scope<lock_t>(_m, [&]() { f = pop_front_unsafe(_queue); });

        f();
""", """        auto f = scope<lock_t>(_m, [this] { return pop_front_unsafe(_queue); });
        f();
""", []),
]
# the helper that rf_n_first needs
for k, e in enumerate(EDITS):
    if e[0] == "rf_n_first":
        EDITS[k] = (e[0], CH, [e[2], _BC], [e[3], """    auto settle() -> std::pair<bool, bool> {
        std::unique_lock<std::mutex> lock(_process_mutex);
        const bool run = !_queue.empty() || _process_close_queue;
        const bool final = _process_final;
        _process_running = run;
        return {run, final};
    }

""" + _BC], [])
_OLD = ["""        bool do_run;
        bool do_final;
        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            do_run = !_queue.empty() || _process_close_queue;
            _process_running = do_run;
            do_final = _process_final;
        }
""", _BC]
EDITS.append(("rf_n_struct", CH, _OLD, ["""        const auto next = settle();
        const bool do_run = next.run;
        const bool do_final = next.final;
""", """    struct settled {
        bool run;
        bool final;
    };

    auto settle() -> settled {
        std::unique_lock<std::mutex> lock(_process_mutex);
        settled result{!_queue.empty() || _process_close_queue, _process_final};
        _process_running = result.run;
        return result;
    }

""" + _BC], []))
EDITS.append(("rf_bc_pair", CH, ["""        std::size_t n;
        bool suspend_process;
        {
            std::unique_lock<std::mutex> lock(_downstream_mutex);
            n = _downstream.size();
            suspend_process = _downstream.minimum_free_buffer() <= 1;
        }
""", _BC], ["""        const auto [n, suspend_process] = outlook();
""", """    auto outlook() -> std::pair<std::size_t, bool> {
        std::unique_lock<std::mutex> lock(_downstream_mutex);
        return {_downstream.size(), _downstream.minimum_free_buffer() <= 1};
    }

""" + _BC], []))
