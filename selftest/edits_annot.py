C = 'include/stlab/concurrency/channel.hpp'
EDITS = [
    ('c09_comb_exec', C, "    result._executor = std::forward<E>(e)._executor;\n", "", ['C09']),
    ('c09_comb_size', C, "    detail::annotations result{b._value};\n", "    detail::annotations result{std::size_t{1}};\n", ['C09']),
    ('c09_pair_size', C, """auto operator&(executor_task_pair<F>&& etp, buffer_size bs) -> detail::annotated_process<F> {
    return detail::annotated_process<F>{std::move(etp), bs};""", """auto operator&(executor_task_pair<F>&& etp, buffer_size) -> detail::annotated_process<F> {
    return detail::annotated_process<F>{std::move(etp)};""", ['C09']),
    ('c09_pair_size2', C, "_f(std::move(etp._f)), _annotations(std::move(etp._executor), bs._value) {}", "_f(std::move(etp._f)), _annotations(bs._value) {}", ['C09']),
    ('c09_first_wins', C, "    result._annotations._buffer_size = bs._value;", "    if (!result._annotations._buffer_size) result._annotations._buffer_size = bs._value;", ['C09']),
    ('c09_exec_upstream', C, "auto executor = ap._annotations._executor.value_or(_p->executor());", "auto executor = ap._annotations._buffer_size ? _p->executor() : ap._annotations._executor.value_or(_p->executor());", ['C09']),
    ('c09_size_exec', C, "if (ap._annotations._buffer_size) p->set_buffer_size", "if (ap._annotations._buffer_size && ap._annotations._executor) p->set_buffer_size", ['C09']),
    ('c09_default', C, "std::atomic_size_t _process_buffer_size{1};", "std::atomic_size_t _process_buffer_size{2};", ['C09']),
    ('c09_moved', C, "    result._annotations._executor = std::move(e._executor);", "    a._annotations._executor = std::move(e._executor);", ['C09']),
    ('c09_same_ternary', C, "auto executor = ap._annotations._executor.value_or(_p->executor());", "auto executor = ap._annotations._executor ? *ap._annotations._executor : _p->executor();", []),
    ('c09_same_move', C, "auto executor = ap._annotations._executor.value_or(_p->executor());", "executor_t executor = std::move(ap._annotations._executor).value_or(_p->executor());", []),
    ('c09_same_if', C, "auto executor = ap._annotations._executor.value_or(_p->executor());", "executor_t executor;\n        if (ap._annotations._executor)\n            executor = std::move(*ap._annotations._executor);\n        else\n            executor = _p->executor();", []),
    ('c09_same_order', C, """        _p->map(sender<T>(p));

        if (ap._annotations._buffer_size) p->set_buffer_size(*ap._annotations._buffer_size);
""", """        if (const auto size = ap._annotations._buffer_size; size.has_value()) p->set_buffer_size(size.value());

        _p->map(sender<T>(p));
""", []),
    ('c09_same_comb', C, """    detail::annotations result{b._value};
    result._executor = std::forward<E>(e)._executor;
    return result;""", """    return detail::annotations{std::forward<E>(e)._executor, b._value};""", []),
]
