H = 'include/stlab/concurrency/future.hpp'
EDITS = [
    ('f07_strong_ctx', H, "recover(std::forward<E>(executor), [_w = std::weak_ptr<P>(shared)](auto&& x) {\n            auto p = _w.lock();",
     "recover(std::forward<E>(executor), [_w = shared](auto&& x) {\n            auto p = _w;", ['F07']),
    ('f07_strong_range', H, "[_context = make_weak_ptr(context), _i = index](const auto& x) {\n            auto p = _context.lock();",
     "[_context = context, _i = index](const auto& x) {\n            auto p = _context;", ['F07']),
    ('f07_no_reset', H, """                } catch (...) {
                    std::move(promise).set_exception(std::current_exception());
                }
                _f.reset();
            });
        return {detail::packaged_task_from_signature_t<Sig>{p}, future<result_t>{p}};""", """                    _f.reset();
                } catch (...) {
                    std::move(promise).set_exception(std::current_exception());
                }
            });
        return {detail::packaged_task_from_signature_t<Sig>{p}, future<result_t>{p}};""", ['F07']),
    ('f07_abandon', H, """        _f.reset(); // _f will not be invoked, release it and any resources it holds
""", "", ['F07']),
    ('f07_strong_task', H, "    using ptr_t = std::weak_ptr<detail::shared_task<Args...>>;\n    ptr_t _p;\n", "    using ptr_t = std::weak_ptr<detail::shared_task<Args...>>;\n    ptr_t _p;\n    std::shared_ptr<detail::shared_task<Args...>> _keep;\n", ['F07']),
    ('f07_queue_owner', H, """            if (!ready) _then.emplace_back(std::move(executor), std::move(pro));
        }

        if (ready) executor(std::move(pro)); // cannot reference this after here

        return std::move(fut);""", """            if constexpr (std::is_copy_constructible_v<std::remove_cvref_t<decltype(fut)>>) {
                if (!ready) _then.emplace_back(std::move(executor), [_p = std::move(pro), _h = fut]() mutable noexcept { _p(); });
            } else {
                if (!ready) _then.emplace_back(std::move(executor), std::move(pro));
            }
        }

        if (ready) executor(std::move(pro)); // cannot reference this after here

        return std::move(fut);""", ['F07']),
    ('f07_hold_dropped', H, "    shared->_holds[i] = std::move(holds);\n", "    if (!holds.is_ready()) return;\n    shared->_holds[i] = std::move(holds);\n", ['F07']),
    ('f07_join_weak', H, "executor, [_f = std::move(f), _p = shared] { return detail::apply_when_all_args(_f, _p); });",
     "executor, [_f = std::move(f), _w = std::weak_ptr<typename decltype(shared)::element_type>(shared)] { auto _p = _w.lock(); return detail::apply_when_all_args(_f, _p); });", ['F07']),
    ('f07_recover_ref', H, """        auto [pro, fut] = package<result_type()>(
            executor, [_f = std::forward<F>(f), _p = std::move(p)]() mutable {
                return std::move(_f)(std::move(_p));
            });

        bool ready{false};
        {
            std::unique_lock<std::mutex> lock(_mutex);
            ready = _ready;
            if (!ready) _then.emplace_back""", """        auto [pro, fut] = package<result_type()>(
            executor, [_f = std::forward<F>(f), _p = this]() mutable {
                return std::move(_f)(future<T>{_p->shared_from_this()});
            });

        bool ready{false};
        {
            std::unique_lock<std::mutex> lock(_mutex);
            ready = _ready;
            if (!ready) _then.emplace_back""", None),
    ('f07_ok_weak_lambda', H, "[_context = make_weak_ptr(context), _i = index](const auto& x) {", "[_context = std::weak_ptr<C>{context}, _i = index](const auto& x) {", []),
    ('f07_ok_nullopt', H, """        _f.reset(); // _f will not be invoked, release it and any resources it holds
""", "        _f = std::nullopt;\n", []),
    ('f07_ok_swap_holds', H, "    std::unique_lock<std::mutex> lock{shared->_guard};\n    shared->_holds[i] = std::move(holds);\n",
     "    {\n        std::lock_guard<std::mutex> guard{shared->_guard};\n        using std::swap;\n        swap(shared->_holds[i], holds);\n    }\n", []),
]
EDITS = [e for e in EDITS if e[4] is not None]
