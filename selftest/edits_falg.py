K = 'include/stlab/forest_algorithms.hpp'
W = ['R05']
EQ = """    if (x.size_valid() && y.size_valid() && x.size() != y.size()) return false;
    auto pos{y.begin()};
    for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
        if (first.edge() != pos.edge()) return false;
    }
    return pos == y.end();
"""
TR = """    for (; first != last; ++first, ++out) {
        if (pred(first)) {
            out = proj(*first);
        } else {
            out.trailing();
        }
    }
    return out;
"""
FL = """    for (; first != last; ++first) {
        if (is_leading(first)) {
            *out++ = *first;
        } else {
            *out++ = std::nullopt;
        }
    }
    return out;
"""
PUT = """    constexpr auto operator=(const typename Container::value_type& value) -> auto& {
        _i = _c->insert(_i, value);
        return *this;
    }
"""
MOV = """        _i = _c->insert(_i, std::move(value));
        return *this;
"""
EDITS = [
    ('fa_eq_end', K, '    return pos == y.end();', '    return true;', W),
    ('fa_eq_neg', K, 'if (first.edge() != pos.edge()) return false;', 'if (first.edge() == pos.edge()) return false;', W),
    ('fa_eq_or', K, 'x.size_valid() && y.size_valid() && x.size() != y.size()', 'x.size_valid() || y.size_valid() && x.size() != y.size()', W),
    ('fa_eq_valid', K, 'x.size_valid() && y.size_valid() && x.size() != y.size()', 'x.size() == y.size() + 1', []),
    ('fa_eq_leaf', K, '++first, ++pos) {\n        if (first.edge() != pos.edge()) return false;', '++first, ++pos) {\n        if (has_children(first) != has_children(pos)) return false;', W),
    ('fa_eq_pre', K, EQ, """    if (x.size_valid() && y.size_valid() && x.size() != y.size()) return false;
    auto pos{y.begin()};
    for (auto first(x.begin()), last(x.end()); first != last; ++first, ++pos) {
        if (pos == y.end() || is_leading(first) != is_leading(pos)) return false;
    }
    return !(pos != y.end());
""", []),
    ('fa_eq_nosize', K, '    if (x.size_valid() && y.size_valid() && x.size() != y.size()) return false;\n', '', []),
    ('fa_eq_mism', K, EQ, """    auto a = x.begin();
    auto b = y.begin();
    while (a != x.end() && a.edge() == b.edge()) {
        ++a;
        ++b;
    }
    return a == x.end() && b == y.end();
""", []),
    ('fa_eq_mism2', K, EQ, """    auto a = x.begin();
    auto b = y.begin();
    while (a != x.end() && a.edge() == b.edge()) {
        ++a;
        ++b;
    }
    return a == x.end() || b == y.end();
""", W),
    ('fa_tr_while', K, TR, """    while (first != last) {
        if (pred(first)) {
            *out = proj(*first);
        } else {
            (*out).trailing();
        }
        ++out;
        ++first;
    }
    return out;
""", []),
    ('fa_tr_neg', K, '        if (pred(first)) {\n            out = proj', '        if (!pred(first)) {\n            out = proj', W),
    ('fa_tr_skip', K, '            out.trailing();\n', '', []),      # the place is the trailing edge already, unless a predicate says otherwise
    ('fa_tr_twice', K, '            out = proj(*first);', '            out = proj(*first);\n            if (!pred(first)) out.trailing();', W),
    ('fa_tr_noinc', K, 'first != last; ++first, ++out) {\n        if (pred(first)) {\n            out = proj(*first);', 'first != last; ++first) {\n        if (pred(first)) {\n            out = proj(*first);\n            ++out;', W),
    ('fa_put_end', K, PUT, PUT.replace('_c->insert(_i, value)', '_c->insert(_c->end(), value)'), W),
    ('fa_mov_end', K, MOV, MOV.replace('_c->insert(_i,', '_c->insert(_c->end(),'), W),
    ('fa_mov_inc', K, MOV, MOV.replace('return', '++_i;\n        return'), W),
    ('fa_put_lost', K, PUT, PUT.replace('_i = _c->insert(_i, value)', '_c->insert(_i, value)'), W),
    ('fa_mov_temp', K, MOV, '        auto r = _c->insert(_i, std::move(value));\n        _i = r;\n        return *this;\n', []),
    ('fa_post', K, '        auto result{*this};\n        ++_i;\n        return result;', '        ++_i;\n        auto result{*this};\n        return result;', W),
    ('fa_post_no', K, '        auto result{*this};\n        ++_i;\n        return result;', '        auto result{*this};\n        ++result._i;\n        return result;', W),
    ('fa_inc_dec', K, '    constexpr auto operator++() -> auto& {\n        ++_i;', '    constexpr auto operator++() -> auto& {\n        _i = trailing_of(_i);\n        ++_i;', W),
    ('fa_trail', K, '_i = trailing_of(_i);', '_i = leading_of(_i);', W),
    ('fa_trail_p', K, '_i = trailing_of(_i);', 'if (is_leading(_i)) _i = pivot_of(_i);', []),
    ('fa_trail_par', K, '_i = trailing_of(_i);', '_i = find_parent(_i);', W),
    ('fa_tr_begin', K, 'return transcribe_iterator<Container>(c, c.begin());', 'return transcribe_iterator<Container>(c, c.end());', W),
    ('fa_tr_root', K, 'return transcribe_iterator<Container>(c, c.begin());', 'return transcribe_iterator<Container>(c, ++c.root());', []),
    ('fa_fl_while', K, FL, """    while (first != last) {
        if (!is_leading(first)) {
            *out = std::nullopt;
        } else {
            *out = *first;
        }
        ++out;
        ++first;
    }
    return out;
""", []),
    ('fa_fl_skip', K, '        } else {\n            *out++ = std::nullopt;', '        } else if (has_children(first)) {\n            *out++ = std::nullopt;', W),
    ('fa_fl_neg', K, '        if (is_leading(first)) {\n            *out++', '        if (!is_leading(first)) {\n            *out++', W),
    ('fa_fl_noinc', K, '            *out++ = *first;', '            *out = *first;', W),
    ('fa_fl_both', K, '            *out++ = *first;\n', '            *out++ = *first;\n            if (!has_children(first)) ++first, *out++ = std::nullopt;\n', []),
    ('fa_un_pred', K, '[](const auto& p) { return *p; });', '[](const auto& p) { return !*p; });', W),
    ('fa_un_has', K, '[](const auto& p) { return *p; });', '[](const auto& p) { return p->has_value(); });', []),
    ('fa_def_pred', K, '[](const auto& p) { return is_leading(p); });', '[](const auto& p) { return has_children(p) || is_leading(p); });', W),
    ('fa_def_pred2', K, '[](const auto& p) { return is_leading(p); });', '[](const auto& p) { return p.edge() == forest_edge::leading; });', []),
]
