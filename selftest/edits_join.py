H = 'include/stlab/concurrency/future.hpp'
ALLD = """                if (--_remaining == 0) run = true;
            }
        }
        if (run) _f();
    }

    void failure(const std::exception_ptr& error) {
        auto run{false};
        {
            std::array"""
ALLF = """            if (!_exception) {
                cancel = std::move(_holds);
                _exception = error;
                run = true;
            }
        }
        if (run) _f();"""
TRIG = """            context.apply(std::forward<F>(f), index);
            if (--context._remaining == 0) run = true;
        }"""
ANYV = """                _arg = std::move(*std::forward<FF>(f).get_try());
                _index = index;
                run = true;
            }
        }
        if (run) _f();"""
ANYE = """    packaged_task<> _f;

    void failure(const std::exception_ptr& error) {
        auto run{false};
        {
            std::unique_lock<std::mutex> lock{_guard};
            if (--_remaining == 0) {
                _exception = error;
                run = true;
            }
        }
        if (run) _f();
    }

    template <size_t index, class FF>
    void done(FF&& f) {"""
EDITS = [
    ('f09_any_value_counts', H, ANYV, ANYV.replace("_index = index;", "_index = index; --_remaining;"), ['F09']),
    ('f09_any_err_unlocked', H, ANYE, ANYE.replace("if (--_remaining == 0) {", "--_remaining; }\n { std::unique_lock<std::mutex> lock{_guard};\n if (_remaining == 0) {"), ['F09']),
    ('f09_any_err_one', H, ANYE, ANYE.replace("--_remaining == 0", "_remaining-- == 0"), ['F09']),
    ('f09_all_relatch', H, ALLF, ALLF.replace("_exception = error;", "_exception = error; _exception = nullptr;"), ['F09']),
    ('f09_all_nolatch', H, ALLF, ALLF.replace("if (!_exception) {", "{"), ['F09']),
    ('f09_all_err_counts', H, ALLF, ALLF.replace("if (!_exception) {", "if (!_exception && _remaining-- > 1) {"), ['F09']),
    ('f09_all_outside', H, ALLD, ALLD.replace("""                if (--_remaining == 0) run = true;
            }
        }
        if (run) _f();""", """                --_remaining;
            }
        }
        if (_remaining == 0) _f();"""), ['F09']),
    ('f09_trig_early', H, TRIG, TRIG.replace("== 0", "<= 1"), ['F09']),
    ('f09_trig_index', H, TRIG, TRIG.replace("if (--context._remaining == 0) run", "if (--context._remaining == 0 || index + 1 == context._holds.size()) run"), ['F09']),
    ('f09_single_open', H, """                context._single_event = true;
""", "", ['F09']),
    ('f09_single_race', H, """            std::unique_lock<std::mutex> lock{context._guard};
            if (!context._single_event) {
""", """            std::unique_lock<std::mutex> lock{context._guard};
            const bool open = !context._single_event;
            lock.unlock();
            lock.lock();
            if (open) {
""", ['F09']),
    ('f09_hold_dropped', H, """    shared->_holds[i] = std::move(holds);
""", """    if (!shared->_exception) shared->_holds[i] = std::move(holds);
""", ['F09']),
    ('f09_hold_slot', H, """    shared->_holds[i] = std::move(holds);
""", """    shared->_holds[0] = std::move(holds);
""", ['F09']),
    ('f09_start', H, "    std::size_t _remaining{std::tuple_size_v<Args>};", "    std::size_t _remaining{std::tuple_size_v<Args> + 1};", ['F09']),
    ('f09_range_start', H, "_remaining(s), _holds(_remaining) {}", "_remaining(s + 1), _holds(s) {}", ['F09']),
    ('f09_set_late', H, """        auto p = package<R()>(executor, [_c = context] { return _c->execute(); });

        context->_f = std::move(p.first);

        size_t index(0);
        for (; first != last; ++first) {
            attach_tasks(index++, executor, context, std::move(*first));
        }
""", """        auto p = package<R()>(executor, [_c = context] { return _c->execute(); });

        size_t index(0);
        for (; first != last; ++first) {
            attach_tasks(index++, executor, context, std::move(*first));
        }
        context->_f = std::move(p.first);
""", ['F09']),
    ('f09_index', H, "attach_tasks(index++, executor, context, *first);", "attach_tasks(index, executor, context, *first);", ['F09']),
    ('f09_ok_all', H, ALLD, ALLD.replace("""                if (--_remaining == 0) run = true;
            }
        }""", """                --_remaining;
                const bool was_last = !_remaining;
                if (was_last) { run = true; }
            }
        }"""), []),
    ('f09_ok_count_up', H, ["    std::size_t _remaining{std::tuple_size_v<Args>};", ALLD], ["    std::size_t _arrived{0};", ALLD.replace("--_remaining == 0", "++_arrived == std::tuple_size_v<Args>")], []),
    ('f09_ok_early', H, ALLF, """            if (_exception) return;
            std::swap(cancel, _holds);
            _exception = error;
        }
        (void)run;
        _f();""", []),
    ('f09_ok_split', H, """struct all_trigger {
    template <class C, class F>
    static auto go(C& context, F&& f, size_t index) -> bool {
        auto run{false};
        {
            std::unique_lock<std::mutex> lock{context._guard};
            context.apply(std::forward<F>(f), index);
            if (--context._remaining == 0) run = true;
        }
        return run;
    }
""", """struct all_trigger {
    template <class C>
    static auto count(C& context) -> bool { return --context._remaining == 0; }
    template <class C, class F>
    static auto go(C& context, F&& f, size_t index) -> bool {
        std::lock_guard<std::mutex> lock{context._guard};
        context.apply(std::forward<F>(f), index);
        return count(context);
    }
""", []),
    ('f09_ok_exch', H, """            if (!context._single_event) {
                for (auto i = 0u; i < context._holds.size(); ++i) {
                    if (i != index) swap(cancel[i], context._holds[i]);
                }
                context._single_event = true;
""", """            if (!std::exchange(context._single_event, true)) {
                for (std::size_t i = 0; i != context._holds.size(); ++i) {
                    if (i == index) continue;
                    std::swap(cancel[i], context._holds[i]);
                }
""", []),
]
