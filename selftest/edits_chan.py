C = 'include/stlab/concurrency/channel.hpp'
ASG = """        auto tmp{std::move(x)};
        std::swap(_p, tmp._p); // tmp removes the receiver that was held
        std::swap(_ready, tmp._ready);
        return *this;"""
EDITS = [
    ('c01_rcopy_noready', C, "receiver(const receiver& x) : _p(x._p), _ready(x._ready) {", "receiver(const receiver& x) : _p(x._p) {", []),
    ('c01_rcopy_always', C, "        if (!_ready && _p) _p->add_receiver();", "        if (_p) _p->add_receiver();", ['C01']),
    ('c01_rcopy_none', C, "        if (!_ready && _p) _p->add_receiver();", "", ['C01']),
    ('c01_rdtor', C, """    ~receiver() {
        if (!_ready && _p) _p->remove_receiver();""", """    ~receiver() {
        if (_p) _p->remove_receiver();""", ['C01']),
    ('c01_setready', C, """        if (!_ready && _p) _p->remove_receiver();
        _ready = true;""", """        if (!_ready && _p) {
            _p->remove_receiver();
            return;
        }
        _ready = true;""", ['C01']),
    ('c01_setready2', C, """        if (!_ready && _p) _p->remove_receiver();
        _ready = true;""", """        _ready = true;
        if (!_ready && _p) _p->remove_receiver();""", ['C01']),
    ('c01_rassign_noready', C, ASG, ASG.replace("        std::swap(_ready, tmp._ready);\n", "        _ready = tmp._ready;\n"), ['C01']),
    ('c01_rassign_default', C, ASG, "        _p = std::move(x._p);\n        _ready = x._ready;\n        return *this;", ['C01']),
    ('c01_merge_one', C, "_sender_count = sizeof...(Args);", "_sender_count = 1;", ['C01']),
    ('c01_recv_init', C, """        _sender_count = std::is_same_v<result_t, void> ? 0 : 1;
        _receiver_count = !std::is_same_v<result_t, void>;""", """        _sender_count = std::is_same_v<result_t, void> ? 0 : 1;
        _receiver_count = 0;""", ['C01']),
    ('c01_add_twice', C, "void add_sender() override { ++_shared_process._sender_count; }", "void add_sender() override { if (_shared_process._sender_count) ++_shared_process._sender_count; }", ['C01']),
    ('c01_map_copy', C, """        auto p = std::make_shared<
            detail::shared_process<detail::default_queue_strategy<T>, identity, T, T>>(
            std::move(executor), identity());

        return std::make_pair(sender<T>(p), receiver<T>(p));""", """        auto p = std::make_shared<
            detail::shared_process<detail::default_queue_strategy<T>, identity, T, T>>(
            std::move(executor), identity());

        receiver<T> r(p);
        return std::make_pair(sender<T>(p), receiver<T>(p));""", ['C01']),
    ('c01_ok_assign', C, ASG, """        if (!_ready && _p) _p->remove_receiver();
        _p = std::move(x._p);
        _ready = x._ready;
        return *this;""", []),
    ('c01_ok_setready', C, """        if (!_ready && _p) _p->remove_receiver();
        _ready = true;""", """        if (_ready) return;
        _ready = true;
        if (_p == nullptr) return;
        _p->remove_receiver();""", []),
    ('c01_ok_dtor', C, """    ~receiver() {
        if (!_ready && _p) _p->remove_receiver();""", """    ~receiver() {
        set_ready();""", []),
    ('c01_ok_count', C, "void add_sender() override { ++_shared_process._sender_count; }", "void add_sender() override { _shared_process._sender_count.fetch_add(1); }", []),

    ('c02_send_latch', C, """
            _shared_process._process_running = _shared_process._process_running || do_run;
        }
        if (do_run) _shared_process.run();
    }

    void send(""", """        }
        if (do_run) _shared_process.run();
    }

    void send(""", ['C02']),
    ('c02_send_setlater', C, """
            _shared_process._process_running = _shared_process._process_running || do_run;
        }
        if (do_run) _shared_process.run();
    }

    void send(""", """        }
        if (do_run) {
            {
                std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
                _shared_process._process_running = true;
            }
            _shared_process.run();
        }
    }

    void send(""", ['C02']),
    ('c02_ready_flag', C, "                _process_running = _process_running || do_run;", "                _process_running = do_run;", ['C02']),
    ('c02_ready_running', C, """                do_run = ((!_queue.empty() || std::is_same_v<first_t<Args...>, void>) ||
                          _process_close_queue) &&
                         !_process_running;""", """                do_run = ((!_queue.empty() || std::is_same_v<first_t<Args...>, void>) ||
                          _process_close_queue);""", ['C02']),
    ('c03_ready_close', C, """                do_run = ((!_queue.empty() || std::is_same_v<first_t<Args...>, void>) ||
                          _process_close_queue) &&
                         !_process_running;""", """                do_run = (!_queue.empty() || std::is_same_v<first_t<Args...>, void>) &&
                         !_process_running;""", ['C03']),
    ('c03_close_start', C, "                do_run = !_shared_process._receiver_count && !_shared_process._process_running;", "                do_run = false;", ['C03']),
    ('c02_close_attach', C, "                do_run = !_shared_process._receiver_count && !_shared_process._process_running;", "                do_run = !_shared_process._process_running;", ['C02']),
    ('c02_send_attach', C, """            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
                                                          _shared_process._timeout_function_active);""", """            do_run = (!_shared_process._process_running ||
                                                          _shared_process._timeout_function_active);""", ['C02']),
    ('c03_send_timeout', C, """            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
                                                          _shared_process._timeout_function_active);""", """            do_run = !_shared_process._receiver_count && !_shared_process._process_running;""", ['C03']),
    ('c03_done_close', C, "            do_run = !_queue.empty() || _process_close_queue;\n            _process_running", "            do_run = !_queue.empty();\n            _process_running", ['C03']),
    ('c03_done_queue', C, "            do_run = !_queue.empty() || _process_close_queue;\n            _process_running", "            do_run = _process_close_queue;\n            _process_running", ['C03']),
    ('c03_done_split', C, """            do_run = !_queue.empty() || _process_close_queue;
            _process_running = do_run;
            do_final = _process_final;
        }""", """            do_run = !_queue.empty() || _process_close_queue;
            do_final = _process_final;
        }
        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            _process_running = do_run;
        }""", ['C03']),
    ('c02_cts_count', C, "            if (!_process_suspend_count) {\n", "            {\n", ['C02']),
    ('c02_cts_final', C, """            if (_process_final) {
                return;
            }
""", "", ['C02']),
    ('c03_cts_close', C, "if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {", "if (ps.first == process_state::yield || !_queue.empty()) {", ['C03']),
    ('c03_cts_queue', C, "if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {", "if (ps.first == process_state::yield || _process_close_queue) {", ['C03']),
    ('c03_cts_yield', C, "if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {", "if (!_queue.empty() || _process_close_queue) {", ['C03']),
    ('c03_cts_idle', C, "                    _process_running = false;\n", "", ['C03']),
    ('c03_cts_under', C, "if (_process_suspend_count > 0) --_process_suspend_count;", "--_process_suspend_count;", ['C03']),
    ('c03_count', C, "_process_suspend_count = n + 1;", "_process_suspend_count = n;", ['C02', 'C03']),
    ('c03_count_late', C, """        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            if (suspend_process) {
                /*
                    Suspend for however many downstream processes we have + 1 for this process -
                   that ensures that we are not kicked to run while still broadcasting.
                */
                _process_suspend_count = n + 1;
            } else
                _process_suspend_count = 1;
        }
        /*
            There is no lock on _downstream here. We only ever append to this deque so the first
            n elements are good.
        */

        _downstream.send(n, std::forward<A>(args)...);
""", """        _downstream.send(n, std::forward<A>(args)...);

        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            if (suspend_process)
                _process_suspend_count = n + 1;
            else
                _process_suspend_count = 1;
        }
""", ['C03']),
    ('c03_err', C, "            if (error) {\n                task_done();\n            } else {", "            if (!error) {", ['C03']),
    ('c03_nomsg', C, "        } else\n            task_done();\n", "        }\n", ['C03']),
    ('c03_bc_final', C, """        } else if (get_process_state(_process).first == process_state::yield) {
            run(); // a closed process ignores clear_to_send() and continues on its own
        } else {
            task_done();
        }""", """        }""", ['C03']),
    ('c02_catch_run', C, """                } catch (...) {
                    broadcast(std::move(std::current_exception()));
                }
            }
        } else
""", """                } catch (...) {
                    broadcast(std::move(std::current_exception()));
                    task_done();
                }
            }
        } else
""", ['C02']),
    ('c02_close_after', C, "        if (do_close) process_close(_process);\n\n        return bool(message);", "        if (!message) task_done();\n        if (do_close) process_close(_process);\n\n        return bool(message);", ['C02']),
    ('c0x_ok_bc', C, """        if (!final) {
            clear_to_send(); // unsuspend this process and decrement the _process_suspend_count
                             // immediately by 1
        } else if (get_process_state(_process).first == process_state::yield) {
            run(); // a closed process ignores clear_to_send() and continues on its own
        } else {
            task_done();
        }""", """        if (final) {
            if (get_process_state(_process).first != process_state::yield)
                task_done();
            else
                run();
            return;
        }
        clear_to_send();""", []),
    ('c0x_ok_send', C, """            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
                                                          _shared_process._timeout_function_active);

            _shared_process._process_running = _shared_process._process_running || do_run;
        }
        if (do_run) _shared_process.run();""", """            if (_shared_process._receiver_count != 0) return;
            const bool was = std::exchange(_shared_process._process_running, true);
            do_run = !was || _shared_process._timeout_function_active;
        }
        if (!do_run) return;
        _shared_process.run();""", []),
    ('c0x_ok_ready', C, """        if (--_receiver_count == 0) {
            bool do_run;
            {
                std::unique_lock<std::mutex> lock(_process_mutex);
                do_run = ((!_queue.empty() || std::is_same_v<first_t<Args...>, void>) ||
                          _process_close_queue) &&
                         !_process_running;
                _process_running = _process_running || do_run;
            }
            if (do_run) run();
        }""", """        if (_receiver_count.fetch_sub(1) != 1) return;
        {
            std::lock_guard<std::mutex> lock(_process_mutex);
            if (_process_running) return;
            const bool pending = !_queue.empty() || _process_close_queue;
            if (!pending && !std::is_same_v<first_t<Args...>, void>) return;
            _process_running = true;
        }
        run();""", []),
    ('c0x_ok_done', C, """            do_run = !_queue.empty() || _process_close_queue;
            _process_running = do_run;
            do_final = _process_final;
        }""", """            if (_process_close_queue)
                do_run = true;
            else
                do_run = !_queue.empty();
            if (!do_run) _process_running = false;
            do_final = _process_final;
        }""", []),
    ('c0x_ok_cts', C, """            if (_process_suspend_count > 0) --_process_suspend_count; // could be atomic?

            if (!_process_suspend_count) {
                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
                    do_run = true;
                } else {
                    _process_running = false;
                    do_run = false;
                }
            }""", """            if (_process_suspend_count != 0) _process_suspend_count -= 1;
            if (_process_suspend_count == 0) {
                do_run = ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
                _process_running = do_run;
            }""", []),
    ('c0x_ok_bc2', C, """        std::size_t n;
        bool suspend_process;
        {
            std::unique_lock<std::mutex> lock(_downstream_mutex);
            n = _downstream.size();
            suspend_process = _downstream.minimum_free_buffer() <= 1;
        }

        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            if (suspend_process) {
                /*
                    Suspend for however many downstream processes we have + 1 for this process -
                   that ensures that we are not kicked to run while still broadcasting.
                */
                _process_suspend_count = n + 1;
            } else
                _process_suspend_count = 1;
        }""", """        std::size_t n;
        std::size_t suspensions = 1;
        {
            std::unique_lock<std::mutex> lock(_downstream_mutex);
            n = _downstream.size();
            if (_downstream.minimum_free_buffer() <= 1) suspensions += n;
        }
        {
            std::unique_lock<std::mutex> lock(_process_mutex);
            _process_suspend_count = suspensions;
        }""", []),
    ('c0x_ok_send2', C, """            _shared_process._queue.template append<I>(
                std::forward<U>(u)); // TODO (sparent) : overwrite here.
            do_run""", """            _shared_process._queue.template append<I>(
                std::forward<U>(u)); // TODO (sparent) : overwrite here.
        }
        {
            std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
            do_run""", []),
    # C04: close
    ('c04_pop_nonempty', C, """        if (_queue.empty()) {
            std::swap(do_close, _process_close_queue);
            _process_final = do_close; // unravel after any yield
        } else {""", """        std::swap(do_close, _process_close_queue);
        _process_final = do_close;
        if (!_queue.empty()) {""", ['C04']),
    ('c04_pop_nofinal', C, "            _process_final = do_close; // unravel after any yield\n", "", ['C04']),
    ('c04_noclose', C, "        if (do_close) process_close(_process);\n", "", ['C04', 'C05']),
    ('c04_close_always', C, "        if (do_close) process_close(_process);\n", "        process_close(_process);\n", ['C04']),
    ('c04_no_process_end', C, "            _process = std::nullopt;\n", "", ['C04']),
    ('c04_no_down_end', C, """            closed.clear(); // This will propagate the close to anything downstream
""", "", []),
    ('c04_no_down_end2', C, """                std::swap(closed, _downstream);
""", "", ['C04']),
    ('c04_end_idle', C, "        if (do_final) {\n", "        if (do_final || !do_run) {\n", ['C04']),
    ('c04_same_locals', C, """            std::swap(do_close, _process_close_queue);
            _process_final = do_close; // unravel after any yield
        } else {""", """            if (_process_close_queue) {
                _process_close_queue = false;
                _process_final = true;
                do_close = true;
            }
        } else {""", []),
    ('c04_same_exchange', C, "            std::swap(do_close, _process_close_queue);\n", "            do_close = std::exchange(_process_close_queue, false);\n", []),
    ('c04_final_always', C, "            _process_final = do_close; // unravel after any yield\n", "            _process_final = true;\n", ['C04']),
    # C05: errors
    ('c05_step_catch', C, """                            std::move(*_process), *message));
                } catch (...) {
                    broadcast(std::move(std::current_exception()));
                }""", """                            std::move(*_process), *message));
                } catch (...) {
                    task_done();
                }""", ['C05']),
    ('c05_step_rethrow', C, """                            std::move(*_process), *message));
                } catch (...) {
                    broadcast(std::move(std::current_exception()));
                }""", """                            std::move(*_process), *message));
                } catch (...) {
                    broadcast(std::move(std::current_exception()));
                    throw;
                }""", ['C05']),
    ('c05_step_notry', C, """                try {
                    broadcast(
                        avoid_invoke_variant<process_t, queue_t, R, Q::arguments_size, Args...>(
                            std::move(*_process), *message));
                } catch (...) {
                    broadcast(std::move(std::current_exception()));
                }""", """                broadcast(avoid_invoke_variant<process_t, queue_t, R, Q::arguments_size, Args...>(
                    std::move(*_process), *message));""", ['C05']),
    ('c05_try_catch', C, """            if (_process) broadcast(unwrap(*_process).yield());
        } catch (...) {
            broadcast(std::move(std::current_exception()));""", """            if (_process) broadcast(unwrap(*_process).yield());
        } catch (...) {""", ['C05']),
    ('c05_first_error', C, "    if (error_index != std::tuple_size_v<T>) {\n", "    if (error_index == 0) {\n", ['C05']),
    ('c05_unwrapped', C, "                if (has_set_process_error_v<unwrap_reference_t<T>>)\n", "                if (has_set_process_error_v<T>)\n", ['C05']),
    ('c05_both', C, """            } else
                await_variant_args<process_t, Args...>(*_process, *message);
        }

        if (do_close)""", """            }
            await_variant_args<process_t, Args...>(*_process, *message);
        }

        if (do_close)""", ['C05']),
    ('c05_noerror_close', C, """                else
                    do_close = true;
            } else""", """            } else""", ['C05']),
    ('c05_error_ignored', C, """                if (has_set_process_error_v<unwrap_reference_t<T>>)
                    set_process_error(*_process, std::move(*error));
                else
                    do_close = true;""", """                do_close = true;""", ['C05']),
    ('c05_step_error', C, """            if (error) {
                task_done();
            } else {
                try {""", """            {
                try {""", ['C05']),
    ('c05_same', C, "            if (error) {\n                task_done();\n            } else {", "            if (error.has_value()) {\n                task_done();\n            } else {", []),
    # C06: back-pressure
    ('c06_limit', C, "queue_size[index] <= (_process_buffer_size - 1);", "queue_size[index] <= _process_buffer_size;", ['C06']),
    ('c06_limit2', C, "queue_size[index] <= (_process_buffer_size - 1);", "queue_size[index] < (_process_buffer_size - 1);", ['C06']),
    ('c06_limit_same', C, "queue_size[index] <= (_process_buffer_size - 1);", "!(queue_size[index] > _process_buffer_size - 1);", []),
    ('c06_before', C, """            _queue.pop_front();
            auto queue_size = _queue.size();
""", """            auto queue_size = _queue.size();
            _queue.pop_front();
""", ['C06']),
    ('c06_dequeue', C, """        std::tie(message, do_cts, do_close) = pop_from_queue();

        std::size_t i = 0;
        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                if (has_""", """        std::tie(message, do_cts, do_close) = pop_from_queue();

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                if (has_""", ['C06']),
    ('c06_all', C, """        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                task_done""", """        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                task_done""", ['C06']),
    ('c06_first', C, """        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                task_done""", """        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                task_done""", ['C06']),
    ('c06_rr_popped', C, """        _popped_index = _index;
        ++_index;
        if (_index == Size)""", """        ++_index;
        _popped_index = _index;
        if (_index == Size)""", ['C06']),
    ('c06_rr_all', C, """        tuple_for_each(_queue, [&i, &result, this](const auto& c) {
            if (i == _popped_index)
                result[i] = c.size();
            else
                result[i] = std::numeric_limits<std::size_t>::max();
            ++i;
        });
        return result;""", """        tuple_for_each(_queue, [&i, &result, this](const auto& c) {
            result[i] = c.size();
            ++i;
        });
        return result;""", ['C06']),
    ('c06_suspend_less', C, "minimum_free_buffer() <= 1;", "minimum_free_buffer() < 1;", ['C06']),
    ('c06_suspend_more', C, "minimum_free_buffer() <= 1;", "minimum_free_buffer() <= 2;", []),
    ('c06_suspend_same', C, "            suspend_process = _downstream.minimum_free_buffer() <= 1;", "            suspend_process = !(_downstream.minimum_free_buffer() > 1);", []),
    ('c06_free_sub', C, "        return size < buffer_size ? buffer_size - size : 0; // senders can exceed the buffer", "        return buffer_size - size;", ['C06']),
    ('c06_free_max', C, "        return size < buffer_size ? buffer_size - size : 0; // senders can exceed the buffer", "        return std::max(buffer_size, size) - size;", []),
    ('c06_free_le', C, "        return size < buffer_size ? buffer_size - size : 0; // senders can exceed the buffer", "        if (size > buffer_size) return 0;\n        return buffer_size - size;", []),
    # C07: delivery
    ('c07_pop_default', C, "    void pop_front() { _queue.pop_front(); }", "    void pop_front() { if (_queue.size() > 1) _queue.pop_front(); }", ['C07']),
    ('c07_pop_twice', C, """            _queue.pop_front();
            auto queue_size""", """            _queue.pop_front();
            if (!_queue.empty()) _queue.pop_front();
            auto queue_size""", ['C07']),
    ('c07_rr_pop', C, """        void_i(_queue, _index, [](auto& c) { c.pop_front(); });
        _popped_index = _index;
        ++_index;""", """        void_i(_queue, _popped_index, [](auto& c) { c.pop_front(); });
        _popped_index = _index;
        ++_index;""", ['C07']),
    ('c07_zip_empty', C, "tuple_find(_queue, [](const auto& c) { return c.empty(); }) != Size", "tuple_find(_queue, [](const auto& c) { return !c.empty(); }) == Size", ['C07']),
    ('c07_send_fewer', C, "        _downstream.send(n, std::forward<A>(args)...);", "        if (n) _downstream.send(n - 1, std::forward<A>(args)...);", ['C07']),
    ('c07_send_twice', C, "stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });", "stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); e(args...); });", ['C07']),
    ('c07_send_loop', C, "stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });", "auto f = begin(_data);\n        while (n--) (*f++)(args...);", []),
    ('c07_send_from2', C, "stlab::for_each_n(begin(_data), n, [&](const auto& e) { e(args...); });", "if (n) stlab::for_each_n(++begin(_data), n - 1, [&](const auto& e) { e(args...); });", ['C07']),
    ('c07_order_fn', C, "std::forward<F>(f)(std::move(std::get<Args>(std::get<I>(t)))...);", "std::forward<F>(f)(std::move(std::get<Args>(std::get<sizeof...(I) - 1 - I>(t)))...);", ['C07']),
    ('c07_order_await', C, "unwrap(process).await(std::move(std::get<T>(std::get<I>(args)))...);", "unwrap(process).await(std::move(std::get<T>(std::get<sizeof...(I) - 1 - I>(args)))...);", ['C07']),
    ('c07_lock', C, """        std::unique_lock<std::mutex> lock(_process_mutex);
        if (_queue.empty()) {
            std::swap""", """        std::unique_lock<std::mutex> lock(_process_mutex);
        const bool none = _queue.empty();
        lock.unlock();
        lock.lock();
        if (none) {
            std::swap""", ['C04', 'C07']),
    ('c07_yield_lost', C, "            if (_process) broadcast(unwrap(*_process).yield());\n", "            if (_process) unwrap(*_process).yield();\n", ['C07']),
    ('c07_drop_empty_message', C, """                await_variant_args<process_t, Args...>(*_process, *message);
        }
""", """                if (!do_cts[0]) await_variant_args<process_t, Args...>(*_process, *message);
        }
""", ['C07']),
    ('c07_append0', C, """    template <std::size_t I, typename U>
    void append(U&& u) {
        std::get<I>(_queue).emplace_back(std::forward<U>(u));
    }
};

/**************************************************************************************************/

template <typename... T>
struct unordered_queue_strategy {""", """    template <std::size_t I, typename U>
    void append(U&& u) {
        std::get<0>(_queue).emplace_back(std::forward<U>(u));
    }
};

/**************************************************************************************************/

template <typename... T>
struct unordered_queue_strategy {""", ['C07']),
    ('c07_overwrite', C, """            _shared_process._queue.template append<I>(
                std::forward<U>(u)); // TODO (sparent) : overwrite here.""", """            if (_shared_process._queue.template queue_size<I>() < 1000)
                _shared_process._queue.template append<I>(std::forward<U>(u));""", ['C07']),
    ('c07_sender_twice', C, """        auto p = _p.lock();
        if (p) p->send(std::forward<A>(args)...);
    }

    [[nodiscard]] auto free_buffer() const -> std::optional<std::size_t> {
        std::optional<std::size_t> result;
        auto p = _p.lock();
        if (p) result = p->free_buffer();
        return result;
    }
};

template <typename T>
class sender<T, enable_if_not_copyable<T>> {""", """        auto p = _p.lock();
        if (p && p->free_buffer()) p->send(std::forward<A>(args)...);
    }

    [[nodiscard]] auto free_buffer() const -> std::optional<std::size_t> {
        std::optional<std::size_t> result;
        auto p = _p.lock();
        if (p) result = p->free_buffer();
        return result;
    }
};

template <typename T>
class sender<T, enable_if_not_copyable<T>> {""", ['C07']),
    ('c07_rr_wrap', C, "        if (_index == Size) _index = 0; // restart from the first sender", "        _index %= Size;", []),
    ('c07_helper', C, "        if (do_close) process_close(_process);\n\n        return bool(message);", "        const bool got = message.has_value();\n        if (do_close) process_close(_process);\n        return got;", []),
    # refactorings
    ('cr_helper_cts', C, ["""        std::tie(message, do_cts, do_close) = pop_from_queue();

        std::size_t i = 0;
        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                if (has""", """        std::tie(message, do_cts, do_close) = pop_from_queue();

        std::size_t i = 0;
        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                task""", "    auto dequeue() -> bool {"], ["""        std::tie(message, do_cts, do_close) = pop_from_queue();
        release_upstream(do_cts);

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                if (has""", """        std::tie(message, do_cts, do_close) = pop_from_queue();
        release_upstream(do_cts);

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                task""", """    void release_upstream(const std::array<bool, sizeof...(Args)>& do_cts) {
        std::size_t i = 0;
        tuple_for_each(_upstream, [&](auto& u) {
            const bool release = do_cts[i++];
            if (!u || !release) return;
            u->clear_to_send();
        });
    }

    auto dequeue() -> bool {"""], []),
    ('cr_structured', C, """        using queue_t = typename Q::value_type;
        std::optional<queue_t> message;
        std::array<bool, sizeof...(Args)> do_cts;
        bool do_close = false;

        std::tie(message, do_cts, do_close) = pop_from_queue();

        std::size_t i = 0;
        tuple_for_each(_upstream, [do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                if (has""", """        auto popped = pop_from_queue();
        auto& message = std::get<0>(popped);
        const auto& do_cts = std::get<1>(popped);
        bool do_close = std::get<2>(popped);

        std::size_t i = 0;
        tuple_for_each(_upstream, [&do_cts, &i](auto& u) {
            if (do_cts[i] && u) u->clear_to_send();
            ++i;
        });

        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                if (has""", []),
    ('cr_lock_guard', C, """            std::unique_lock<std::mutex> lock(_process_mutex);
            do_run = !_queue.empty()""", """            std::lock_guard<std::mutex> lock{_process_mutex};
            do_run = !_queue.empty()""", []),
    ('cr_suspend_ternary', C, """            if (suspend_process) {
                /*
                    Suspend for however many downstream processes we have + 1 for this process -
                   that ensures that we are not kicked to run while still broadcasting.
                */
                _process_suspend_count = n + 1;
            } else
                _process_suspend_count = 1;""", """            _process_suspend_count = suspend_process ? n + 1 : 1;""", []),
    ('cr_suspend_sum', C, """            if (suspend_process) {
                /*
                    Suspend for however many downstream processes we have + 1 for this process -
                   that ensures that we are not kicked to run while still broadcasting.
                */
                _process_suspend_count = n + 1;
            } else
                _process_suspend_count = 1;""", """            _process_suspend_count = (suspend_process ? n : 0) + 1;""", []),
    ('cr_done_early', C, """        if (do_run) run();
        if (do_final) {
            downstream<result_t> closed; // closed, and the process destructed, without the lock
            {
                std::unique_lock<std::mutex> lock(_downstream_mutex);
                std::swap(closed, _downstream);
            }
            closed.clear(); // This will propagate the close to anything downstream
            _process = std::nullopt;
        }
    }""", """        if (do_run) run();
        if (!do_final) return;
        close_downstream();
        _process.reset();
    }

    void close_downstream() {
        downstream<result_t> closed; // closed, and the process destructed, without the lock
        {
            std::unique_lock<std::mutex> lock(_downstream_mutex);
            std::swap(closed, _downstream);
        }
        closed.clear(); // This will propagate the close to anything downstream
    }""", []),
    ('cr_step_early', C, """        if (message) {
            auto error = find_argument_error(*message);
            if (error) {
                task_done();
            } else {
                try {
                    broadcast(
                        avoid_invoke_variant<process_t, queue_t, R, Q::arguments_size, Args...>(
                            std::move(*_process), *message));
                } catch (...) {
                    broadcast(std::move(std::current_exception()));
                }
            }
        } else
            task_done();
    }""", """        if (!message || find_argument_error(*message)) {
            task_done();
            return;
        }
        try {
            broadcast(avoid_invoke_variant<process_t, queue_t, R, Q::arguments_size, Args...>(
                std::move(*_process), *message));
        } catch (...) {
            broadcast(std::current_exception());
        }
    }""", []),
    ('cr_enqueue_if', C, """            do_run = !_shared_process._receiver_count && (!_shared_process._process_running ||
                                                          _shared_process._timeout_function_active);

            _shared_process._process_running = _shared_process._process_running || do_run;
        }
        if (do_run) _shared_process.run();
    }

    void send(""", """            const bool busy =
                _shared_process._process_running && !_shared_process._timeout_function_active;
            do_run = !busy && _shared_process._receiver_count == 0;
            if (do_run) _shared_process._process_running = true;
        }
        if (do_run) _shared_process.run();
    }

    void send(""", []),
    ('cr_cts_loop', C, """            for (auto index = 0u; index < queue_size.size(); ++index)
                do_cts[index] = queue_size[index] <= (_process_buffer_size - 1);""", """            const std::size_t limit = _process_buffer_size - 1;
            std::size_t index = 0;
            for (const auto size : queue_size) {
                do_cts[index] = size <= limit;
                ++index;
            }""", []),
    ('cr_try_broadcast', C, """        try {
            if (_process) broadcast(unwrap(*_process).yield());
        } catch (...) {""", """        if (!_process) return;
        try {
            auto&& p = unwrap(*_process);
            broadcast(p.yield());
        } catch (...) {""", []),
    ('cr_find_error', C, """    auto error_index = tuple_find(argument, [](const auto& c) {
        return static_cast<message_t>(c.index()) == message_t::error;
    });""", """    const auto is_error = [](const auto& c) {
        return std::holds_alternative<std::exception_ptr>(c);
    };
    const auto error_index = tuple_find(argument, is_error);""", []),
    ('cr_remove_receiver', C, """                do_run = ((!_queue.empty() || std::is_same_v<first_t<Args...>, void>) ||
                          _process_close_queue) &&
                         !_process_running;
                _process_running = _process_running || do_run;""", """                const bool pending = !_queue.empty() || _process_close_queue ||
                                     std::is_same_v<first_t<Args...>, void>;
                do_run = pending && !_process_running;
                if (do_run) _process_running = true;""", []),
    ('cr_clear_to_send', C, """            if (!_process_suspend_count) {
                if (ps.first == process_state::yield || !_queue.empty() || _process_close_queue) {
                    do_run = true;
                } else {
                    _process_running = false;
                    do_run = false;
                }
            }""", """            if (_process_suspend_count == 0) {
                do_run = ps.first == process_state::yield || !_queue.empty() || _process_close_queue;
                if (!do_run) _process_running = false;
            }""", []),
    ('cr_dequeue_swap', C, """            if (error) {
                if (has_set_process_error_v<unwrap_reference_t<T>>)
                    set_process_error(*_process, std::move(*error));
                else
                    do_close = true;
            } else
                await_variant_args<process_t, Args...>(*_process, *message);
        }
""", """            if (!error) {
                await_variant_args<process_t, Args...>(*_process, *message);
            } else if constexpr (has_set_process_error_v<unwrap_reference_t<T>>) {
                set_process_error(*_process, std::move(*error));
            } else {
                do_close = true;
            }
        }
""", []),
    ('cr_n_const', C, """        std::size_t n;
        bool suspend_process;
        {
            std::unique_lock<std::mutex> lock(_downstream_mutex);
            n = _downstream.size();
            suspend_process = _downstream.minimum_free_buffer() <= 1;
        }
""", """        const auto [n, suspend_process] = [&] {
            std::unique_lock<std::mutex> lock(_downstream_mutex);
            return std::make_pair(_downstream.size(), _downstream.minimum_free_buffer() <= 1);
        }();
""", []),
    ('cr_min_loop', C, """        // std::reduce with C++17
        return std::accumulate(_data.cbegin(), _data.cend(),
                               std::numeric_limits<std::size_t>::max(),
                               [](auto val, const auto& e) {
                                   return std::min(val, e.free_buffer().value_or(val));
                               });""", """        auto result = std::numeric_limits<std::size_t>::max();
        for (const auto& e : _data) {
            const auto free = e.free_buffer();
            if (free && *free < result) result = *free;
        }
        return result;""", []),
    ('cr_rr_next', C, """        void_i(_queue, _index, [](auto& c) { c.pop_front(); });
        _popped_index = _index;
        ++_index;
        if (_index == Size) _index = 0; // restart from the first sender""", """        _popped_index = _index;
        void_i(_queue, _popped_index, [](auto& c) { c.pop_front(); });
        _index = _index + 1 == Size ? 0 : _index + 1;""", []),
    ('cr_remove_sender', C, """        if (--_shared_process._sender_count == 0) {
            bool do_run;
            {
                std::unique_lock<std::mutex> lock(_shared_process._process_mutex);
                _shared_process._process_close_queue = true;
                do_run = !_shared_process._receiver_count && !_shared_process._process_running;
                _shared_process._process_running = _shared_process._process_running || do_run;
            }
            if (do_run) _shared_process.run();
        }""", """        if (--_shared_process._sender_count != 0) return;
        auto& p = _shared_process;
        std::unique_lock<std::mutex> lock(p._process_mutex);
        p._process_close_queue = true;
        if (p._receiver_count || p._process_running) return;
        p._process_running = true;
        lock.unlock();
        p.run();""", []),
]
