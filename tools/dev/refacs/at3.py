R={'utils/Utils.h':[(None,('''    const auto size = list.size();

    if (index >= size) {
        return list.end();
    }

    if (index > size / 2) {
        auto result = std::prev(list.end());
        const auto toMove = size - index - 1;
        for (size_t i = 0; i < toMove; ++i) {
            --result;
        }
        return result;
    } else {
        auto result = list.begin();
        for (size_t i = 0; i < index; ++i) {
            ++result;
        }
        return result;
    }
''','''    const size_t size = list.size();
    if (index >= size) return list.end();
    auto result = list.begin();
    std::advance(result, index);
    return result;
'''))]}
