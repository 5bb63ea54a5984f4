C = 'include/stlab/concurrency/channel.hpp'
EDITS = [
    ('c08_rr_nowrap', C, "        if (_index == Size) _index = 0; // restart from the first sender\n", "", ['C08']),
    ('c08_rr_args', C, "if (_index == Size) _index = 0;", "if (_index == arguments_size) _index = 0;", ['C08']),
    ('c08_rr_last', C, "if (_index == Size) _index = 0;", "if (_index >= Size - 1) _index = 0;", ['C08']),
    ('c08_rr_start', C, """    using queue_t = std::tuple<std::deque<std::variant<T, std::exception_ptr>>...>;
    std::size_t _index{0};
    std::size_t _popped_index{0};
    queue_t _queue;

    [[nodiscard]] auto empty() const -> bool {
        return get_i(""", """    using queue_t = std::tuple<std::deque<std::variant<T, std::exception_ptr>>...>;
    std::size_t _index{Size - 1};
    std::size_t _popped_index{0};
    queue_t _queue;

    [[nodiscard]] auto empty() const -> bool {
        return get_i(""", ['C08']),
    ('c08_rr_empty0', C, "return get_i(_queue, _index, [](const auto& c) { return c.empty(); }, true);", "return get_i(_queue, _popped_index, [](const auto& c) { return c.empty(); }, true);", ['C08']),
    ('c08_rr_two', C, "        if (_index == Size) _index = 0; // restart from the first sender", "        if (_index == Size) _index = Size > 2 ? 1 : 0;", ['C08']),
    ('c08_zip_any', C, "tuple_find(_queue, [](const auto& c) { return c.empty(); }) != Size;", "tuple_find(_queue, [](const auto& c) { return !c.empty(); }) == Size;", ['C08']),
    ('c08_zip_first', C, "tuple_find(_queue, [](const auto& c) { return c.empty(); }) != Size;", "tuple_find(_queue, [](const auto& c) { return c.empty(); }) < Size - 1;", ['C08']),
    ('c08_un_all', C, "return tuple_find(_queue, [](const auto& c) { return !c.empty(); }) == Size;", "return std::get<0>(_queue).empty();", ['C08']),
    ('c08_un_last', C, "return tuple_find(_queue, [](const auto& c) { return !c.empty(); }) == Size;", "return tuple_find(_queue, [](const auto& c) { return !c.empty(); }) >= Size - 1;", ['C08']),
    ('c08_same_mod', C, """        ++_index;
        if (_index == Size) _index = 0; // restart from the first sender""", "        _index = (_index + 1) % Size;", []),
    ('c08_same_tern', C, """        ++_index;
        if (_index == Size) _index = 0; // restart from the first sender""", "        _index = (_index == Size - 1) ? 0 : _index + 1;", []),
    ('c08_same_fold', C, ["tuple_find(_queue, [](const auto& c) { return c.empty(); }) != Size;", "return tuple_find(_queue, [](const auto& c) { return !c.empty(); }) == Size;"],
     ["std::apply([](const auto&... c) { return (c.empty() || ...); }, _queue);", "return std::apply([](const auto&... c) { return (c.empty() && ...); }, _queue);"], []),
    ('c08_same_size', C, "tuple_find(_queue, [](const auto& c) { return c.empty(); }) != Size;", "tuple_find(_queue, [](const auto& c) { return c.size() == 0; }) < Size;", []),
]
