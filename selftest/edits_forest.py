K = 'include/stlab/forest.hpp'
DERASE = """    if (has_children(position)) {
        unsafe::set_next(leading_prior, leading_next);
        unsafe::set_next(trailing_prior, trailing_next);
    } else {
        unsafe::set_next(leading_prior, trailing_next);
    }
"""
SPL = """    iterator back(std::prev(last.base()));

    unsafe::set_next(std::prev(first), last);

    unsafe::set_next(std::prev(pos), first.base());
    unsafe::set_next(back, pos);

    return first.base();
"""
SZ = """    if (&x != this) {
        if (count) {
            if (size_valid()) _size += count;
            if (x.size_valid()) x._size -= count;
        } else {
            _size = 0;
            x._size = 0;
        }
    }
"""
INS = """        iterator result(new node_t(std::move(x)), forest_edge::leading);

        if (size_valid()) ++_size;

        unsafe::set_next(std::prev(position), result);
        unsafe::set_next(std::next(result), position);
"""
IP = """    iterator result(insert(last.base(), x));
    if (first == last) return result;
    splice(trailing_of(result), *this, first, child_iterator(result));
    return result;
"""
INC = """        if (is_leading(_edge))
            _edge = forest_edge(next != _node);
        else
            _edge = forest_edge(next->link(forest_edge::leading, node_t::prior_s) == _node);

        _node = next;
    }

    void decrement() {
        node_t* next(_node->link(_edge, node_t::prior_s));

        if (is_leading(_edge))
            _edge = forest_edge(next->link(forest_edge::trailing, node_t::next_s) != _node);
        else
            _edge = forest_edge(next == _node);

        _node = next;
    }

    [[nodiscard]] auto equal(const forest_%siterator& y) const -> bool {"""
I1, I2 = INC % '', INC % 'const_'
REV = """    void increment() {
        _base.edge() = pivot(_edge);
        --_base;
        _edge = pivot(_base.edge());
    }"""
ER = """            if (stack_depth > 0)
                position = erase(position);
            else
                ++position;
            stack_depth = std::max<difference_type>(0, stack_depth - 1);"""
EDITS = [
    # erase
    ('fo_erase_leaf', K, "        unsafe::set_next(leading_prior, trailing_next);\n    }", "        unsafe::set_next(leading_prior, leading_next);\n    }", ['R02']),
    ('fo_erase_half', K, DERASE, DERASE.replace("        unsafe::set_next(trailing_prior, trailing_next);\n", ""), ['R02']),
    ('fo_erase_nodelete', K, "    delete position._node;\n", "", ['R01']),
    ('fo_erase_size', K, "    if (size_valid()) --_size;\n", "", ['R03']),
    ('fo_erase_size_blind', K, "    if (size_valid()) --_size;\n", "    --_size;\n", ['R03']),
    ('fo_erase_result', K, "return is_leading(position) ? std::next(leading_prior) : trailing_next;", "return trailing_next;", ['R02']),
    ('fo_erase_early', K, "    iterator leading_prior(std::prev(leading_of(position)));", "    if (!has_children(position)) unsafe::set_next(std::prev(leading_of(position)), std::next(trailing_of(position)));\n    iterator leading_prior(std::prev(leading_of(position)));", ['R02']),
    ('fo_erase_use', K, "    delete position._node;\n\n    return is_leading(position) ? std::next(leading_prior) : trailing_next;", "    delete position._node;\n\n    return is_leading(position) ? std::next(position) : trailing_next;", ['R01']),
    ('fo_erase_same', K, DERASE + "\n    delete position._node;\n\n    return is_leading(position) ? std::next(leading_prior) : trailing_next;",
     "    const bool leaf = !has_children(position);\n    unsafe::set_next(leading_prior, leaf ? trailing_next : leading_next);\n    if (!leaf) unsafe::set_next(trailing_prior, trailing_next);\n    auto result = is_leading(position) ? (leaf ? trailing_next : leading_next) : trailing_next;\n    delete position._node;\n    return result;", []),
    # erase of a range
    ('fo_range_depth', K, ER, ER.replace("std::max<difference_type>(0, stack_depth - 1)", "stack_depth - 1"), ['R02']),
    ('fo_range_never', K, ER, ER.replace("stack_depth > 0", "stack_depth > 1"), ['R01']),
    ('fo_range_result', K, "    return last;\n}\n", "    return first;\n}\n", ['R02']),
    ('fo_range_same', K, ER, "            if (stack_depth > 0) {\n                position = erase(position);\n                --stack_depth;\n            } else\n                ++position;", []),
    # insert
    ('fo_ins_size', K, INS, INS.replace("        if (size_valid()) ++_size;\n", ""), ['R03']),
    ('fo_ins_size_late', K, INS, INS.replace("\n        if (size_valid()) ++_size;\n", "") + "        if (size_valid()) ++_size;\n", []),
    ('fo_ins_size_early', K, INS, "        if (size_valid()) ++_size;\n" + INS.replace("\n        if (size_valid()) ++_size;\n", ""), ['R03']),
    ('fo_ins_next', K, INS, INS.replace("unsafe::set_next(std::next(result), position)", "unsafe::set_next(result, position)"), ['R02']),
    ('fo_ins_swap', K, INS, INS.replace("        unsafe::set_next(std::prev(position), result);\n        unsafe::set_next(std::next(result), position);\n", "        unsafe::set_next(trailing_of(result), position);\n        unsafe::set_next(std::prev(position), result);\n"), ['R02']),
    ('fo_ins_same', K, INS, INS.replace("        unsafe::set_next(std::prev(position), result);\n        unsafe::set_next(std::next(result), position);\n", "        const iterator before(std::prev(position));\n        unsafe::set_next(trailing_of(result), position);\n        unsafe::set_next(before, result);\n"), []),
    ('fo_insrange_all', K, "        if (is_leading(first)) pos = insert(pos, *first);", "        if (is_leading(first)) insert(pos, *first);", ['R02']),
    ('fo_insrange_pre', K, "for (const_iterator first(f.base()), last(l.base()); first != last; ++first, ++pos) {\n        if (is_leading(first)) pos = insert(pos, *first);",
     "for (const_iterator first(f.base()), last(l.base()); first != last; ++first) {\n        if (is_leading(first)) pos = insert(pos, *first);\n        ++pos;", []),
    ('fo_setnext_one', K, "        y._node->link(y.edge(), node_t::prior_s) = x._node;", "        y._node->link(forest_edge::leading, node_t::prior_s) = x._node;", ['R02']),
    # splice
    ('fo_spl_guard', K, "    if (first == last || first.base() == pos) return pos;", "    if (first == last) return pos;", ['R02']),
    ('fo_spl_empty', K, "    if (first == last || first.base() == pos) return pos;", "    if (first.base() == pos) return pos;", ['R02']),
    ('fo_spl_back', K, SPL, SPL.replace("    iterator back(std::prev(last.base()));\n\n    unsafe::set_next(std::prev(first), last);\n", "    unsafe::set_next(std::prev(first), last);\n    iterator back(std::prev(last.base()));\n"), ['R02']),
    ('fo_spl_prior', K, SPL, SPL.replace("    iterator back(std::prev(last.base()));\n", "    iterator back(std::prev(last.base()));\n    iterator before(std::prev(pos));\n").replace("std::prev(pos), first", "before, first"), ['R02']),
    ('fo_spl_result', K, SPL, SPL.replace("return first.base()", "return pos"), ['R02']),
    ('fo_spl_same_size', K, SZ, SZ.replace("    if (&x != this) {", "    {"), []),
    ('fo_spl_size_one', K, SZ, SZ.replace("            x._size = 0;\n", ""), ['R03']),
    ('fo_spl_size_this', K, SZ, SZ.replace("            _size = 0;\n            x._size = 0;\n", "            x._size = 0;\n"), ['R03']),
    ('fo_spl_size_blind', K, SZ, SZ.replace("if (size_valid()) _size += count;", "_size += count;"), ['R03']),
    ('fo_spl_size_wrong', K, SZ, SZ.replace("if (x.size_valid()) x._size -= count;", "if (size_valid()) x._size -= count;"), ['R03']),
    ('fo_spl_size_late', K, SZ + "\n" + SPL, SPL.replace("    return first.base();\n", "") + SZ + "    return first.base();\n", ['R03']),
    ('fo_spl_one_count', K, "has_children(i) ? 0 : 1", "1", ['R03']),
    ('fo_spl_one_edge', K, "    i.edge() = forest_edge::leading;\n    return splice", "    return splice", ['R02']),
    ('fo_spl_all_size', K, "x.size_valid() ? x.size() : 0", "size_valid() ? x.size() : 0", []),
    ('fo_spl_same', K, SZ + "\n" + SPL, SZ.replace("if (&x != this) {", "const bool other = &x != this;\n    if (other) {") + "    const iterator front(first.base());\n    const iterator back(std::prev(last.base()));\n    unsafe::set_next(std::prev(front), last.base());\n    const iterator before(std::prev(pos));\n    unsafe::set_next(back, pos);\n    unsafe::set_next(before, front);\n    return front;\n", []),
    # insert_parent, reverse
    ('fo_ip_first', K, IP, IP.replace("insert(last.base(), x)", "insert(first.base(), x)"), ['R02']),
    ('fo_ip_lead', K, IP, IP.replace("trailing_of(result)", "result"), ['R02']),
    ('fo_ip_empty', K, IP, IP.replace("    if (first == last) return result;\n", ""), ['R02']),
    ('fo_rev_front', K, "        front = splice(front, *this, i, first);", "        splice(front, *this, i, first);", ['R02']),
    # copies and moves
    ('fo_copy_leak', K, "    forest(const forest& x) : forest() {", "    forest(const forest& x) {", ['R01']),
    ('fo_dtor', K, "    ~forest() { clear(); }", "    ~forest() { if (_size) clear(); }", ['R01']),
    ('fo_move_noclear', K, "        clear();                // these two lines are `reset()`\n", "", ['R02']),
    ('fo_move_self', K, "        auto tmp{std::move(x)}; // this is `release()`\n        clear();                // these two lines are `reset()`\n        splice(end(), tmp);", "        clear();\n        splice(end(), x);", []),
    ('fo_size_cache', K, "    auto size_valid() const -> bool { return _size != 0 || empty(); }", "    auto size_valid() const -> bool { return _size != 0; }", []),
    ('fo_size_count', K, "        const_preorder_iterator first(begin());\n        const_preorder_iterator last(end());", "        const_iterator first(begin());\n        const_iterator last(end());", ['R03']),
    ('fo_eq_edge', K, "        if (first.edge() != pos.edge()) return false;\n", "", ['R02']),
    ('fo_eq_size', K, "    if (x.size() != y.size()) return false;\n", "", ['R02']),
    ('fo_eq_value', K, "        if (is_leading(first) && (*first != *pos)) return false;", "        if (is_trailing(first) && has_children(first) && (*first != *pos)) return false;", ['R02']),
    ('fo_eq_trail', K, "        if (is_leading(first) && (*first != *pos)) return false;", "        if (is_trailing(first) && (*first != *pos)) return false;", []),
    ('fo_pop_back', K, "    void pop_back() { _forest.erase(--child_end(_iterator).base()); }", "    void pop_back() { _forest.erase(child_end(_iterator).base()); }", ['R01', 'R02']),
    ('fo_push_front', K, "_forest.insert(child_begin(_iterator).base(), x)", "_forest.insert(_iterator, x)", ['R02']),
    # iterators
    ('fo_inc', K, I1, I1.replace("_edge = forest_edge(next->link(forest_edge::leading, node_t::prior_s) == _node);", "_edge = forest_edge(next->link(forest_edge::trailing, node_t::prior_s) != _node);"), ['R04']),
    ('fo_inc_leaf', K, I1, I1.replace("_edge = forest_edge(next != _node);", "_edge = forest_edge::leading;"), ['R04']),
    ('fo_dec', K, I1, I1.replace("_edge = forest_edge(next == _node);", "_edge = forest_edge(next->link(forest_edge::leading, node_t::next_s) == _node);"), []),
    ('fo_cdec', K, I2, I2.replace("forest_edge(next->link(forest_edge::trailing, node_t::next_s) != _node)", "forest_edge(next->link(forest_edge::leading, node_t::next_s) == _node)"), []),
    ('fo_cdec2', K, I2, I2.replace("_edge = forest_edge(next == _node);", "_edge = forest_edge::trailing;"), ['R04']),
    ('fo_cequal', K, I2 + "\n        return (_node == y._node) && (_edge == y._edge);", I2 + "\n        return _node == y._node;", ['R04']),
    ('fo_child_inc', K, "        pivot(_x);\n        ++_x;", "        ++_x;\n        pivot(_x);", ['R04']),
    ('fo_child_dec', K, "        --_x;\n        pivot(_x);", "        pivot(_x);\n        --_x;", ['R04']),
    ('fo_edge_dec', K, "find_edge_reverse(std::prev(_x), Edge)", "find_edge(std::prev(_x), Edge)", ['R04']),
    ('fo_edge_find', K, "find_edge(std::next(_x), Edge)", "find_edge(std::next(trailing_of(_x)), Edge)", ['R04']),
    ('fo_revit_edge', K, REV, REV.replace("        _edge = pivot(_base.edge());\n", ""), ['R04']),
    ('fo_revit_stale', K, REV, REV.replace("        _base.edge() = pivot(_edge);\n", ""), ['R04']),
    ('fo_revit_equal', K, "return _base.equal_node(y._base) && (_edge == y._edge);", "return (_base == y._base) && (_edge == y._edge);", ['R04']),
    ('fo_revit_base', K, "        result.edge() = pivot(_edge); // the edge may have been changed by edge()\n", "", ['R04']),
    ('fo_depth_sign', K, "            _depth -= difference_type(static_cast<std::size_t>(old_edge) << 1) - 1;", "            _depth += difference_type(static_cast<std::size_t>(old_edge) << 1) - 1;", ['R04']),
    ('fo_depth_all', K, "        ++_x;\n        if (old_edge == edge())\n            _depth", "        ++_x;\n        _depth", ['R04']),
    ('fo_depth_same', K, "            _depth += difference_type(static_cast<std::size_t>(old_edge) << 1) - 1;", "            _depth += is_leading(old_edge) ? 1 : -1;", []),
    ('fo_filter_skip', K, "            f.edge() = forest_edge::trailing;\n            ++f;", "            ++f;", ['R04']),
    ('fo_parent', K, "    do {\n        i = std::next(trailing_of(i));\n    } while (i.edge() != forest_edge::trailing);", "    i = std::next(trailing_of(i));", ['R04']),
    ('fo_children', K, "    return !i.equal_node(std::next(leading_of(i)));", "    return std::next(leading_of(i)) != i;", ['R04']),
    ('fo_child_end', K, "    return child_iterator<I>(trailing_of(x));", "    return child_iterator<I>(std::next(trailing_of(x)));", ['R04']),
    ('fo_front', K, "        return *(--end());\n    }\n    auto back() const", "        return *std::prev(trailing_of(begin()));\n    }\n    auto back() const", ['R04']),
]
