H = 'include/stlab/concurrency/future.hpp'
EDITS = [
    ('f10_index_const', H, """                _arg = std::move(*std::forward<FF>(f).get_try());
                _index = index;""", """                _arg = std::move(*std::forward<FF>(f).get_try());
                _index = S - _remaining;""", ['F10']),
    ('f10_store_late', H, """            if (!_exception) {
                assign_ready_future<FF>::assign(std::get<index>(_args), std::move(f));
                if (--_remaining == 0) run = true;
            }
        }
        if (run)""", """            if (!_exception) {
                if (--_remaining == 0) run = true;
            }
        }
        assign_ready_future<FF>::assign(std::get<index>(_args), std::move(f));
        if (run)""", ['F10']),
    ('f10_unguarded_err', H, """    auto execute() {
        if (this->_exception) {
            std::rethrow_exception(this->_exception);
        }
        return""", """    auto execute() {
        if (this->_exception && !_single_event) {
            std::rethrow_exception(this->_exception);
        }
        return""", ['F10']),
    ('f10_vec_back', H, "context._results[index] = std::move(*std::forward<F>(f).get_try());", "context._results[context._index++] = std::move(*std::forward<F>(f).get_try());", ['F10']),
    ('f10_err_lost', H, """    void apply(const std::exception_ptr& error, std::size_t) { _exception = error; }

    auto operator()() { return result_creator<Indexed, R>::go(*this); }""", """    void apply(const std::exception_ptr& error, std::size_t index) { _index = index; if (!error) _exception = error; }

    auto operator()() { return result_creator<Indexed, R>::go(*this); }""", ['F10']),
    ('f10_any_noexc', H, """    if (p->_exception) {
        std::rethrow_exception(p->_exception);
    }

    return p->apply(f);""", """    return p->apply(f);""", ['F10']),
    ('f10_all_first_only', H, "(rethrow_if_false(static_cast<bool>(std::get<I>(args)), p->_exception), 0)...", "(rethrow_if_false(static_cast<bool>(std::get<I>(args)) || I + 1 == sizeof...(I), p->_exception), 0)...", ['F10']),
    ('f10_index_noset', H, """        context._results = std::move(*std::forward<F>(f).get_try());
        context._index = index;""", """        context._results = std::move(*std::forward<F>(f).get_try());
        if (!context._index) context._index = index;""", ['F10']),
    ('f10_wrong_exc', H, """    if (p->_exception) {
        std::rethrow_exception(p->_exception);
    }

    return p->apply(f);""", """    if (p->_exception) {
        std::rethrow_exception(std::make_exception_ptr(future_error(future_error_codes::broken_promise)));
    }

    return p->apply(f);""", ['F10']),
    ('f10_ok_apply', H, """    if (p->_exception) {
        std::rethrow_exception(p->_exception);
    }

    return p->apply(f);""", """    const auto& failed = p->_exception;
    if (failed == nullptr) return p->apply(f);
    std::rethrow_exception(failed);""", []),
    ('f10_ok_all', H, """    (void)std::initializer_list<int>{
        (rethrow_if_false(static_cast<bool>(std::get<I>(args)), p->_exception), 0)...};
""", """    if (p->_exception) std::rethrow_exception(p->_exception);
    (void)p;
""", []),
    ('f10_ok_fold', H, """    (void)std::initializer_list<int>{
        (rethrow_if_false(static_cast<bool>(std::get<I>(args)), p->_exception), 0)...};
""", """    if (!(std::get<I>(args).has_value() && ...)) std::rethrow_exception(p->_exception);
""", []),
    ('f10_ok_store', H, "context._results[index] = std::move(*std::forward<F>(f).get_try());", "auto v = std::forward<F>(f).get_try();\n auto& slot = context._results[index];\n slot = std::move(v.value());", []),
    ('f10_ok_store2', H, """                _arg = std::move(*std::forward<FF>(f).get_try());
                _index = index;""", """                _index = index;
                auto v = std::forward<FF>(f).get_try();
                _arg.emplace(std::move(*v));""", []),
    ('f10_ok_go', H, """    static auto go(C& context) {
        return context._f(std::move(context._results), context._index);""", """    static auto go(C& context) {
        const std::size_t n = context._index;
        auto r = std::move(context._results);
        return context._f(std::move(r), n);""", []),
]
