H = 'include/stlab/concurrency/future.hpp'
REC = """            ready = _ready;
            if (!ready) _then.emplace_back(std::move(executor), std::move(pro));
        }

        if (ready) executor(std::move(pro)); // cannot reference this after here"""
EDITS = [
    ('f01_ready_before_lock', H, """        bool ready{false};
        {
            std::unique_lock<std::mutex> lock(_mutex);
""" + REC, """        bool ready = _ready;
        if (!ready) {
            std::unique_lock<std::mutex> lock(_mutex);
            _then.emplace_back(std::move(executor), std::move(pro));
        }

        if (ready) executor(std::move(pro)); // cannot reference this after here""", ['F01']),
    ('f01_ready_not_run', H, REC, REC.replace("if (ready) executor", "if (ready && _result) executor"), ['F01']),
    ('f01_refactor_helper', H, REC, """            ready = _ready;
            if (ready == false) this->add_(std::move(executor), std::move(pro));
        }

        if (ready) executor(std::move(pro)); // cannot reference this after here
        if (false) {""" .replace("        if (false) {", ""), ['X']),
    ('f01_proceed_ready_outside', H, """        typename C::then_t then;
        {
            std::unique_lock<std::mutex> lock(sb._mutex);
            sb._ready = true;
            then = std::move(sb._then);
        }
        for (auto& e : then)
            e.first(std::move(e.second));""", """        typename C::then_t then;
        {
            std::unique_lock<std::mutex> lock(sb._mutex);
            then = std::move(sb._then);
        }
        sb._ready = true;
        for (auto& e : then)
            e.first(std::move(e.second));""", ['F01']),
    ('f01_proceed_take_outside', H, """            sb._ready = true;
            then = std::move(sb._then);
        }
        for (auto& e : then)
            e.first(std::move(e.second));""", """            sb._ready = true;
        }
        then = std::move(sb._then);
        for (auto& e : then)
            e.first(std::move(e.second));""", ['F01', 'L02']),
    ('f01_first_only', H, """        for (auto& e : then) {
            e.first(std::move(e.second));
        }""", """        if (!then.empty()) {
            auto& e = then.back();
            e.first(std::move(e.second));
        }""", ['F01']),
    ('f01_wrong_exec', H, """        for (auto& e : then) {
            e.first(std::move(e.second));
        }""", """        for (auto& e : then) {
            then.front().first(std::move(e.second));
        }""", ['F08']),
    ('f01_ok_swap', H, """            then = std::move(_then);
            _ready = true;
        }
        // propagate exception with scheduling
        for (auto& e : then) {""", """            _ready.store(true);
            std::swap(then, _then);
        }
        // propagate exception with scheduling
        for (auto& e : then) {""", []),
    ('f01_ok_lockguard', H, """            std::unique_lock<std::mutex> lock(_mutex);
            then = std::move(_then);
            _ready = true;
        }
        // propagate exception with scheduling
        for (auto& e : then) {
            e.first(std::move(e.second));
        }""", """            std::lock_guard<std::mutex> guard(_mutex);
            _ready = true;
            then.swap(_then);
        }
        // propagate exception with scheduling
        for (std::size_t i = 0; i != then.size(); ++i) {
            auto exec = std::move(then[i].first);
            exec(std::move(then[i].second));
        }""", []),
    ('f01_ok_early_return', H, """            ready = _ready;
            if (!ready) _then.emplace_back(std::move(executor), std::move(pro));
        }

        if (ready) executor(std::move(pro)); // cannot reference this after here

        return std::move(fut);""", """            if (!_ready) {
                _then.emplace_back(std::move(executor), std::move(pro));
                return std::move(fut);
            }
        }
        (void)ready;
        executor(std::move(pro)); // cannot reference this after here
        return std::move(fut);""", []),
]
EDITS += [
    ('f02_value_after', H, ["""struct value_<T, enable_if_copyable<void_to_monostate_t<T>>> {
    template <class C>
    static void proceed(C& sb) {
        typename C::then_t then;
        {
            std::unique_lock<std::mutex> lock(sb._mutex);
            sb._ready = true;
            then = std::move(sb._then);
        }
        for (auto& e : then)
            e.first(std::move(e.second));
    }

    template <class R, class A>
    static void set(shared_base<R>& sb, A&& a) {
        sb._result = std::forward<A>(a);
        proceed(sb);
    }"""], ["""struct value_<T, enable_if_copyable<void_to_monostate_t<T>>> {
    template <class R, class A>
    static void set(shared_base<R>& sb, A&& a) {
        typename shared_base<R>::then_t then;
        {
            std::unique_lock<std::mutex> lock(sb._mutex);
            sb._ready = true;
            then = std::move(sb._then);
        }
        sb._result = std::forward<A>(a);
        for (auto& e : then)
            e.first(std::move(e.second));
    }"""], ['F02']),
    ('f02_exc_after', H, """        _exception = error;
        then_t then;
        {
            std::unique_lock<std::mutex> lock(_mutex);
            then = std::move(_then);
            _ready = true;
        }""", """        then_t then;
        {
            std::unique_lock<std::mutex> lock(_mutex);
            then = std::move(_then);
            _ready = true;
            _exception = error;
        }""", ['F02']),
    ('f02_try_unready', H, """            ready = _ready;
        }
        if (ready) {
            if (_exception) std::rethrow_exception(_exception);
            return _result;
        }
        return std::nullopt;""", """            ready = _ready;
        }
        if (_exception) std::rethrow_exception(_exception);
        if (ready) {
            return _result;
        }
        return std::nullopt;""", ['F02']),
    ('f02_relaxed', H, ["""    auto is_ready() const& -> bool { return _ready; }"""], ["""    auto is_ready() const& -> bool { return _ready.load(std::memory_order_relaxed); }"""], ['F02']),
    ('f02_noexc', H, """        if (_exception) std::rethrow_exception(_exception);
        return *_result;
""", """        if (_exception && !_result) std::rethrow_exception(_exception);
        return *_result;
""", []),
    ('f02_value_first', H, """        if (_exception) std::rethrow_exception(_exception);
        return *_result;
""", """        if (_result) return *_result;
        if (_exception) std::rethrow_exception(_exception);
        return *_result;
""", []),
    ('f02_ok_helper', H, ["""        if (ready) {
            if (_exception) std::rethrow_exception(_exception);
            return _result;
        }
        return std::nullopt;""", """    auto get_ready_r(bool unique) -> type {
        if (!unique)"""], ["""        if (!ready) return std::nullopt;
        return take_();""", """    auto take_() -> std::optional<type> {
        if (_exception == nullptr) return _result;
        std::rethrow_exception(_exception);
    }
    auto get_ready_r(bool unique) -> type {
        if (!unique)"""], []),
    ('f06_try', H, """        if (!unique) return get_try();
""", """        (void)unique;
""", ['F06']),
    ('f06_le2', H, """    return p.use_count() == 1;""", """    return p.use_count() <= 2;""", ['F06']),
    ('f06_get', H, ["""        if (_exception) std::rethrow_exception(_exception);
        return *_result;
"""], ["""        if (_exception) std::rethrow_exception(_exception);
        type r = std::move(*_result);
        return *(_result = std::move(r));
"""], ['F06']),
    ('f06_ok', H, """    return p.use_count() == 1;""", """    const auto n = p.use_count();
    return n < 2;""", []),
]
EDITS += [
    ('f03_keep', H, """            _p.reset();
            (*p)(std::forward<A>(args)...);""", """            (*p)(std::forward<A>(args)...);""", ['F03']),
    ('f03_keep2', H, """            _p.reset();
            p->set_value(std::move(value));""", """            p->set_value(std::move(value));
            _p.reset();""", ['F03']),
    ('f03_dtor', H, """    ~promise() {
        if (auto p = _p.lock()) {""", """    ~promise() {
        if (auto p = _p.lock(); p && p->_executor) {""", ['F03']),
    ('f03_code', H, """    ~promise() {
        if (auto p = _p.lock()) {
            p->_set_exception(
                std::make_exception_ptr(future_error(future_error_codes::broken_promise)));""", """    ~promise() {
        if (auto p = _p.lock()) {
            p->_set_exception(
                std::make_exception_ptr(future_error(future_error_codes::no_state)));""", ['F03']),
    ('f03_move', H, """    packaged_task(packaged_task&&) noexcept = default;""", """    packaged_task(packaged_task&& x) noexcept : _p(x._p) {}""", ['F03']),
    ('f03_assign', H, """    auto operator=(packaged_task&& x) noexcept -> packaged_task& {
        auto tmp{std::move(x)};
        _p.swap(tmp._p); // tmp breaks the promise that was held
        return *this;
    }""", """    auto operator=(packaged_task&& x) noexcept -> packaged_task& = default;""", ['F03']),
    ('f03_ok', H, ["""            _p.reset();
            (*p)(std::forward<A>(args)...);""", """    ~promise() {
        if (auto p = _p.lock()) {
            p->_set_exception(
                std::make_exception_ptr(future_error(future_error_codes::broken_promise)));
        }
    }""", """        if (auto p = _p.lock()) {
            _p.reset();
            p->set_value(std::move(value));
        }"""], ["""            ptr_t{}.swap(_p);
            (*p)(std::forward<A>(args)...);""", """    ~promise() { break_(); }
    void break_() {
        auto p = _p.lock();
        if (!p) return;
        auto e = std::make_exception_ptr(future_error(future_error_codes::broken_promise));
        p->_set_exception(e);
    }""", """        auto w = std::exchange(_p, std::weak_ptr<shared_base<R>>{});
        auto p = w.lock();
        if (p == nullptr) return;
        p->set_value(std::move(value));"""], []),
]
PK = """                try {
                    auto tmp = invoke_void_to_monostate_result(
                        std::move(*_f), std::forward<decltype(args)>(args)...);
                    std::move(promise).set_value(std::move(tmp)); // noexcept
                } catch (...) {
                    std::move(promise).set_exception(std::current_exception());
                }
                _f.reset();"""
RD = """                                if (auto e = f.exception()) {
                                    std::move(_p).set_exception(std::move(e));
                                } else {
                                    std::move(_p).set_value(invoke_void_to_monostate_result(
                                        [&] { return std::move(f).get_ready(); }));
                                }"""
TH = """    template <class F>
    auto then(F&& f) const& {
        return recover([_f = std::forward<F>(f)](future<result_type>&& p) mutable {
            return invoke_remove_monostate_arguments(
                std::move(_f),
                invoke_void_to_monostate_result([&] { return std::move(p).get_ready(); }));
        });
    }"""
EDITS += [
    ('f04_wrong', H, PK, PK.replace("set_exception(std::current_exception())", "set_exception(std::make_exception_ptr(future_error(future_error_codes::no_state)))"), ['F04']),
    ('f04_slice', H, PK, PK.replace("} catch (...) {", "} catch (const std::exception& e) {\n std::move(promise).set_exception(std::make_exception_ptr(e));\n } catch (...) {"), ['F04']),
    ('f04_typed', H, PK, PK.replace("} catch (...) {", "} catch (const std::exception&) {"), ['F04']),
    ('f04_red', H, """                } catch (...) {
                    std::move(promise).set_exception(std::current_exception());
                }
                _f.reset();
            });
        return {detail::packaged_task_from_signature_t<Sig>{p}, result_t{p}};""", """                } catch (...) {
                }
                _f.reset();
            });
        return {detail::packaged_task_from_signature_t<Sig>{p}, result_t{p}};""", ['F04']),
    ('f04_ok', H, PK, """                std::exception_ptr failed;
                try {
                    auto tmp = invoke_void_to_monostate_result(
                        std::move(*_f), std::forward<decltype(args)>(args)...);
                    std::move(promise).set_value(std::move(tmp)); // noexcept
                } catch (...) {
                    failed = std::current_exception();
                }
                if (failed) std::move(promise).set_exception(failed);
                _f.reset();""", []),
    ('f05_red_drop', H, RD, RD.replace("if (auto e = f.exception()) {", "if (auto e = f.exception()) {\n e = std::make_exception_ptr(future_error(future_error_codes::no_state));"), ['F05']),
    ('f05_red_swap', H, RD, RD.replace("std::move(_p).set_exception(std::move(e));", "auto q = std::move(_p);"), ['F05']),
    ('f05_then_recovers', H, TH, TH.replace("return std::move(p).get_ready(); }", "if constexpr (!std::is_void_v<T>) { if (p.exception()) return T{}; } return std::move(p).get_ready(); }"), ['F05']),
    ('f05_then_twice', H, """                return std::move(_f)(std::move(_p));
            });

        bool ready{false};
        {
            std::unique_lock<std::mutex> lock(_mutex);
            ready = _ready;
            if (!ready) _then.emplace_back""", """                if (auto e = _p.exception()) std::rethrow_exception(e);
                return std::move(_f)(std::move(_p));
            });

        bool ready{false};
        {
            std::unique_lock<std::mutex> lock(_mutex);
            ready = _ready;
            if (!ready) _then.emplace_back""", ['F05']),
    ('f05_ok', H, [RD, TH], ["""                                auto e = f.exception();
                                if (e == nullptr)
                                    std::move(_p).set_value(invoke_void_to_monostate_result(
                                        [&] { return std::move(f).get_ready(); }));
                                else
                                    std::move(_p).set_exception(e);""", """    template <class F>
    auto then(F&& f) const& {
        return then(_p->_executor, std::forward<F>(f));
    }"""], []),
]
EDITS = [e for e in EDITS if e[4] != ['X']]
