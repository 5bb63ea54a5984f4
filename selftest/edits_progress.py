K = 'include/stlab/concurrency/progress.hpp'
W = ['P01']
SW = """        auto tmp = std::move(x); // drops the task that was tracked
        std::swap(_f, tmp._f);
        _p.swap(tmp._p);
        return *this;
"""
CALL = """        auto r = _f(args...);
        auto p = _p.lock();
        if (p) p->task_done();
        return r;
"""
DONE = """        ++_done_tasks;
        if (_signal) {
            _signal(steps(), completed());
        }
"""
EDITS = [
    ('pt_nocopy', K, '        if (p) p->add_task();\n    }\n\n    tracker_client& operator=', '    }\n\n    tracker_client& operator=', W),
    ('pt_fieldswap', K, 'size_t steps() const { return _task_number.load(); }', 'size_t steps() const { return _done_tasks.load(); }', W),
    ('pt_other', K, 'tracker_client(const tracker_client& x) : _f(x._f), _p(x._p) {\n        auto p = _p.lock();', 'tracker_client(const tracker_client& x) : _f(x._f), _p(x._p) {\n        auto p = x._p.lock();', []),
    ('pt_nop', K, ': _f(x._f), _p(x._p) {', ': _f(x._f) {', W),
    ('pt_move_add', K, 'tracker_client(tracker_client&&) = default;', 'tracker_client(tracker_client&& x) : _f(std::move(x._f)), _p(x._p) {}', W),
    ('pt_move_ok', K, 'tracker_client(tracker_client&&) = default;', 'tracker_client(tracker_client&& x) : _f(std::move(x._f)), _p(std::move(x._p)) {}', []),
    ('pt_move_copy', K, 'tracker_client(tracker_client&&) = default;', 'tracker_client(tracker_client&& x) : _f(std::move(x._f)), _p(x._p) { if (auto p = _p.lock()) p->add_task(); }', []),
    ('pt_asg_old', K, SW, '        _f = std::move(x._f);\n        _p = std::move(x._p);\n        return *this;\n', W),
    ('pt_asg_swap', K, SW, '        std::swap(_f, x._f);\n        _p.swap(x._p);\n        return *this;\n', []),
    ('pt_asg_drop', K, SW, '        if (this == &x) return *this;\n        if (auto p = _p.lock()) p->drop_task();\n        _f = std::move(x._f);\n        _p = std::move(x._p);\n        x._p.reset();\n        return *this;\n', []),
    ('pt_asg_self', K, SW, '        if (auto p = _p.lock()) p->drop_task();\n        _f = std::move(x._f);\n        _p = std::move(x._p);\n        return *this;\n', W),
    ('pt_asg_nop', K, '        _p.swap(tmp._p);\n', '', W),
    ('pt_ctor', K, ': _f(std::move(f)), _p(p) {\n        p->add_task();', ': _f(std::move(f)), _p(p) {', W),
    ('pt_dtor', K, '        if (p) p->drop_task();', '        if (p) p->add_task();', W),
    ('pt_dtor_none', K, '        auto p = _p.lock();\n        if (p) p->drop_task();', '', W),
    ('pt_dtor_if', K, '        auto p = _p.lock();\n        if (p) p->drop_task();', '        if (auto q = _p.lock()) {\n            q->drop_task();\n        }', []),
    ('pt_call_before', K, CALL, '        auto p = _p.lock();\n        if (p) p->task_done();\n        return _f(args...);\n', W),
    ('pt_call_early', K, CALL, '        auto p = _p.lock();\n        auto r = _f(args...);\n        if (p) p->task_done();\n        return r;\n', []),
    ('pt_call_if', K, CALL, '        auto r = _f(args...);\n        if (auto p = _p.lock(); p != nullptr) p->task_done();\n        return r;\n', []),
    ('pt_call_drop', K, CALL, CALL.replace('if (p) p->task_done();', 'if (p) {\n            p->task_done();\n            p->drop_task();\n        }'), W),
    ('pt_call_twice', K, CALL, '        if (auto p = _p.lock(); p && p->steps() == 0) return _f(args...);\n' + CALL, W),
    ('pt_done_after', K, DONE, '        if (_signal) {\n            _signal(steps(), completed());\n        }\n        ++_done_tasks;\n', W),
    ('pt_done_swap', K, '_signal(steps(), completed());', '_signal(completed(), steps());', W),
    ('pt_done_one', K, DONE, '        if (_signal) {\n            ++_done_tasks;\n            _signal(steps(), completed());\n        }\n', W),
    ('pt_done_last', K, DONE, '        ++_done_tasks;\n        if (_signal && steps() == completed()) {\n            _signal(steps(), completed());\n        }\n', W),
    ('pt_done_ret', K, DONE, '        _done_tasks.fetch_add(1);\n        if (!_signal) return;\n        _signal(_task_number.load(), _done_tasks.load());\n', []),
    ('pt_done_load', K, '++_done_tasks;', '_done_tasks.store(_done_tasks.load() + 1);', W),
    ('pt_init', K, '_done_tasks = {0};', '_done_tasks = {1};', W),
    ('pt_nosig', K, ': _signal(std::move(f)) {}', '{ (void)f; }', W),
    ('pt_nosig2', K, '_tracker(std::make_shared<detail::tracker_server>(std::move(f))) {}', '_tracker(std::make_shared<detail::tracker_server>()) {}', W),
    ('pt_drop_sub', K, '--_task_number;', '_task_number.fetch_sub(1);', []),
]
