K = 'include/stlab/concurrency/task.hpp'
MV = """    task_(task_&& x) noexcept : _vtable_ptr(x._vtable_ptr), _invoke(x._invoke) {
        _vtable_ptr->move_ctor(&x._model, &_model);
    }"""
AS = """        if (this == &x) return *this;
        _vtable_ptr->dtor(&_model);
        _vtable_ptr = x._vtable_ptr;
        _invoke = x._invoke;
        _vtable_ptr->move_ctor(&x._model, &_model);
        return *this;"""
FIT = """std::conditional_t<(sizeof(small_t) <= small_size) &&
                                               (alignof(small_t) <= alignof(decltype(_model))),
                                           small_t, large_t>"""
SM = "            new (p) model(std::move(static_cast<model*>(self)->_f));"
LM = "            new (p) model(std::move(*static_cast<model*>(self)));"
EDITS = [
    ('t_move_noinvoke', K, MV, MV.replace(", _invoke(x._invoke)", ""), ['T02']),
    ('t_move_novtable', K, MV, MV.replace("_vtable_ptr(x._vtable_ptr), ", "").replace("_vtable_ptr->move", "x._vtable_ptr->move"), ['T01']),
    ('t_move_swapped', K, MV, MV.replace("&x._model, &_model", "&_model, &x._model"), ['T01']),
    ('t_assign_leak', K, AS, AS.replace("        _vtable_ptr->dtor(&_model);\n", ""), ['T01']),
    ('t_assign_late', K, AS, AS.replace("        _vtable_ptr->dtor(&_model);\n        _vtable_ptr = x._vtable_ptr;\n", "        _vtable_ptr = x._vtable_ptr;\n        _vtable_ptr->dtor(&_model);\n"), ['T01']),
    ('t_assign_self', K, AS, AS.replace("        if (this == &x) return *this;\n", ""), ['T01']),
    ('t_assign_noinvoke', K, AS, AS.replace("        _invoke = x._invoke;\n", ""), ['T02']),
    ('t_assign_emptykeeps', K, AS, AS.replace("        if (this == &x) return *this;\n", "        if (this == &x || !x) return *this;\n"), ['T02']),
    ('t_fit_size', K, FIT, FIT.replace("sizeof(small_t) <= small_size", "sizeof(small_t) <= sizeof(task_)"), ['T01']),
    ('t_fit_align', K, FIT, "std::conditional_t<(sizeof(small_t) <= small_size), small_t, large_t>", ['T01']),
    ('t_fit_align2', K, "alignof(decltype(_model))", "alignof(std::max_align_t) * 2", ['T01']),
    ('t_same_fit', K, "alignof(decltype(_model))", "max_align", []),
    ('t_same_fit_smaller', K, "sizeof(small_t) <= small_size", "sizeof(small_t) <= small_size / 2", []),
    ('t_empty_not', K, "        if (is_empty(f)) return;\n", "", ['T02']),
    ('t_empty_late', K, "        if (is_empty(f)) return;\n\n        new (&_model) model_t(std::forward<F>(f));\n", "        new (&_model) model_t(std::forward<F>(f));\n        if (is_empty(f)) return;\n", ['T01', 'T02']),
    ('t_empty_function', K, " ||\n        std::is_same_v<std::function<R(Args...)>, std::decay_t<F>>;", ";", ['T02']),
    ('t_empty_function_ref', K, "std::is_same_v<std::function<R(Args...)>, std::decay_t<F>>;", "std::is_same_v<std::function<R(Args...)>, F>;", []),
    ('t_dtor_none', K, "~task_() { _vtable_ptr->dtor(&_model); };", "~task_() { if (_invoke == invoke) _vtable_ptr->dtor(&_model); };", ['T01']),
    ('t_small_dtor', K, "    struct model<F, true> {", "    struct model<F, true> {\n        ~model() { _f.~F(); }", ['T01']),
    ('t_small_moved_destroyed', K, SM, SM + "\n            dtor(self);", ['T01']),
    ('t_large_copy', K, LM, "            new (p) model(std::move(*static_cast<model*>(self)->_p));", []),
    ('t_large_ptr', K, "            return static_cast<model*>(self)->_p.get();", "            return &static_cast<model*>(self)->_p;", ['T02']),
    ('t_fit_none', K, FIT, 'large_t', []),
    ('t_bool_invoke', K, "return _vtable_ptr->const_pointer(&_model) != nullptr; }", "return _vtable_ptr != &_vtable || _invoke == invoke; }", ['T02']),
    ('t_bool_vtable', K, "return _vtable_ptr->const_pointer(&_model) != nullptr; }", "return _vtable_ptr != &_vtable; }", []),
    ('t_eq', K, """operator==(std::nullptr_t, const task_& x) -> bool {
        return !static_cast<bool>(x);""", """operator==(std::nullptr_t, const task_& x) -> bool {
        return static_cast<bool>(x);""", ['T02']),
    ('t_target_any', K, "return (target_type() == typeid(T)) ? static_cast<T*>(_vtable_ptr->pointer(&_model)) :\n                                              nullptr;", "return static_cast<T*>(_vtable_ptr->pointer(&_model));", ['T02']),
    ('t_empty_call', K, """        } else {
            throw std::bad_function_call();
        }""", """        } else {
            throw std::bad_exception();
        }""", ['T02']),
    ('t_empty_noexcept', K, "        if constexpr (NoExcept) {\n            try {", "        if constexpr (!NoExcept) {\n            try {", ['T02']),
    ('t_type', K, "auto target_type() noexcept -> const std::type_info& { return typeid(F); }\n        static auto pointer(void* self) noexcept -> void* {\n            return", "auto target_type() noexcept -> const std::type_info& { return typeid(F*); }\n        static auto pointer(void* self) noexcept -> void* {\n            return", ['T02']),
    ('t_swallow', K, "            return (*static_cast<model*>(self)->_p)(std::forward<Args>(args)...);", "            try {\n                return (*static_cast<model*>(self)->_p)(std::forward<Args>(args)...);\n            } catch (const std::logic_error&) {\n                if constexpr (std::is_void_v<R>) return; else return R();\n            }", ['T02']),
    ('t_copy_callable', K, "            return (static_cast<model*>(self)->_f)(std::forward<Args>(args)...);", "            if constexpr (std::is_copy_constructible_v<F>) {\n                auto g = static_cast<model*>(self)->_f;\n                return g(std::forward<Args>(args)...);\n            } else return (static_cast<model*>(self)->_f)(std::forward<Args>(args)...);", []),
    ('t_replace_first', K, "        return *this = task_(std::forward<F>(f));", "        *this = nullptr;\n        return *this = task_(std::forward<F>(f));", ['T02']),
    ('t_same_move', K, MV, "    task_(task_&& x) noexcept {\n        x._vtable_ptr->move_ctor(&x._model, &_model);\n        _invoke = x._invoke;\n        _vtable_ptr = x._vtable_ptr;\n    }", []),
    ('t_same_take', K, MV, "    task_(task_&& x) noexcept { take(x); }\n    void take(task_& x) noexcept {\n        _vtable_ptr = x._vtable_ptr;\n        _invoke = x._invoke;\n        _vtable_ptr->move_ctor(&x._model, &_model);\n    }", []),
    ('t_same_destructive', K, MV, "    task_(task_&& x) noexcept : _vtable_ptr(x._vtable_ptr), _invoke(x._invoke) {\n        _vtable_ptr->move_ctor(&x._model, &_model);\n        x._vtable_ptr->dtor(&x._model);\n        x._vtable_ptr = &_vtable;\n        x._invoke = invoke;\n    }", []),
    ('t_destructive_half', K, MV, "    task_(task_&& x) noexcept : _vtable_ptr(x._vtable_ptr), _invoke(x._invoke) {\n        _vtable_ptr->move_ctor(&x._model, &_model);\n        x._vtable_ptr->dtor(&x._model);\n        x._invoke = invoke;\n    }", ['T01']),
    ('t_same_assign', K, AS, "        if (this != &x) {\n            this->~task_();\n            new (this) task_(std::move(x));\n        }\n        return *this;", []),
    ('t_same_forward', K, "        return *this = task_(std::forward<F>(f));", "        task_ t(std::forward<F>(f));\n        swap(t);\n        return *this;", []),
    ('t_noexcept_ctor', K, "!NoExcept || std::is_nothrow_invocable_v<F, Args...>", "!NoExcept || std::is_invocable_v<F, Args...>", ['T03']),
    ('t_noexcept_assign', K, "!NoExcept || std::is_nothrow_invocable_v<decltype(f), Args...>", "!NoExcept || std::is_invocable_v<decltype(f), Args...>", ['T03']),
    ('t_copyable', K, "    task_(const task_&) = delete;", "    task_(const task_& x) : task_(std::move(const_cast<task_&>(x))) {}", ['T03']),
    ('t_move_throws', K, "    auto operator=(task_&& x) noexcept -> task_& {", "    auto operator=(task_&& x) -> task_& {", ['T03']),
    ('t_call_not_noexcept', K, "    auto operator()(Brgs&&... brgs) noexcept(NoExcept) {", "    auto operator()(Brgs&&... brgs) {", ['T03']),
    ('t_implicit_bool', K, "    explicit operator bool() const {", "    operator bool() const {", ['T03']),
    ('t_const_rvalue', K, "    task_(const task_&&) = delete;\n", "", []),
]
