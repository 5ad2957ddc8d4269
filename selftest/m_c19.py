V = "index/vamana/"
SB, DB, FL = V + "search_buffer.h", V + "dynamic_search_buffer.h", V + "filter.h"
CLS = """        size_ = 0;
        best_unvisited_ = 0;
        if (visited_set_enabled()) {
            visited_->reset();
        }
"""
CLM = """        candidates_.clear();
        best_unvisited_ = 0;
        roi_end_ = 0;
        valid_ = 0;
        if (visited_set_enabled()) {
            visited_->reset();
        }
"""
NEXTS = """        while (++best_unvisited_ != upper && candidates_[best_unvisited_].visited()) {}
"""
NEXTM = """        while (++best_unvisited_ != roi_end_ && candidates_[best_unvisited_].visited()) {}
"""
PUSHS = """        if (!full()) {
            *end() = neighbor;
            ++size_;
        }
"""
INS = """        std::copy_backward(index, end(), end() + 1);
        (*index) = neighbor;
"""
SCANS = """        if (pos != start) {
            auto back = pos;
            do {
                --back;
                const auto& candidate = *back;
                if (compare_(candidate.distance(), neighbor.distance())) {
                    break;
                } else if (candidate.id_ == neighbor.id()) {
                    return size() + 1;
                }
            } while (back != start);
        }
"""
TAILS = """        size_ = std::min(size_ + 1, capacity());
        best_unvisited_ = std::min(best_unvisited_, i);
"""
LB = """        auto pos = std::lower_bound(
            start,
            end(),
            neighbor.distance(),
            [&](const value_type& other, const float& d) {
                return !compare_(d, other.distance());
            }
        );
"""
UB = """        auto pos = std::upper_bound(
            start,
            end(),
            neighbor.distance(),
            [&](const float& d, const value_type& other) {
                return compare_(d, other.distance());
            }
        );
"""
SCANM = """                if (compare_(candidate.distance(), neighbor.distance())) {
                    break;
                }
                if (candidate.id_ == neighbor.id()) {
                    return size() + 1;
                }
"""
PUSHM = """        candidates_.push_back(neighbor);
        if (valid) {
            ++valid_;
        }
        roi_end_ = candidates_.size();
"""
CASE1 = """                while (!svs::getindex(candidates_, roi_end_).valid()) {
                    --roi_end_;
                }
                ++roi_end_;
"""
CASE2 = """                // Since we inserted below (moving everything above by 1), we can restore
                // 5B by incrementing `roi_end_`.
                ++roi_end_;
"""
SPLV = """                    while (!svs::getindex(candidates_, --roi_end_).valid()) {}
                    ++roi_end_;
"""
SPLI = """                if (!this_valid) {
                    ++roi_end_;
                } else {
"""
NOSPLIT = """            candidates_.resize(roi_end_);
            if (slack() > 0) {
                assert(slack() == 1);
                valid_ -= 1;
            }
"""
DROP2 = "            candidates_.resize(walk_back(candidates_.size() - 2) + 1);\n"
DROP1 = "            candidates_.resize(walk_back(candidates_.size() - 1) + 1);\n"
LASTV = """            // We dropped a valid element off the back when shrinking.
            valid_ -= 1;
"""
SORTM = """                ++valid_count;
                if (valid_count == target_valid_) {
                    // One past the last valid element.
                    roi_end_ = i + 1;
                    break;
                }
"""
SORTT = """            while (!back().valid()) {
                candidates_.pop_back();
                assert(!candidates_.empty());
            }
"""
CHS = """        size_ = std::min(size_, new_size);
"""
CHC = """        size_ = std::min(size_, capacity_);
"""
M = [
    ("c19-nosize", "C19", "bug", [(SB, CLS, CLS.replace("        size_ = 0;\n", ""))]),
    ("c19-nobest", "C19", "bug", [(SB, CLS, CLS.replace("        best_unvisited_ = 0;\n", "        if (full()) best_unvisited_ = 0;\n"))]),
    ("c19-novisit", "C19", "bug", [(SB, CLS, CLS.replace("visited_set_enabled()", "visited_set_enabled() && size_ > 0"))]),
    ("c19-novalid", "C19", "bug", [(DB, CLM, CLM.replace("        valid_ = 0;\n", ""))]),
    ("c19-noroi", "C19", "bug", [(DB, CLM, CLM.replace("        roi_end_ = 0;\n", ""))]),
    ("c19-nolist", "C19", "bug", [(DB, CLM, CLM.replace("        candidates_.clear();\n", "        candidates_.resize(valid_capacity_);\n"))]),
    ("c19-novisitm", "C19", "bug", [(DB, CLM, CLM.replace("            visited_->reset();\n", ""))]),
    ("c19-storage", "C19", "bug", [(SB, "        , candidates_{capacity_ + 1}\n", "        , candidates_{capacity_}\n")]),
    ("c19-storagewin", "C19", "bug", [(SB, "        candidates_.resize(capacity_ + 1);\n", "        candidates_.resize(search_window_size_ + 1);\n")]),
    ("c19-noclamp", "C19", "bug", [(SB, CHS, "")]),
    ("c19-noclampc", "C19", "bug", [(SB, CHC, "")]),
    ("c19-wide", "C19", "bug", [(DB, "        uint16_t valid_capacity_temp = lib::narrow<uint16_t>(config.get_total_capacity());\n", "        uint16_t valid_capacity_temp = lib::narrow_cast<uint16_t>(config.get_total_capacity());\n")]),
    ("c19-wincap", "C19", "bug", [(DB, "        valid_capacity_ = valid_capacity_temp;\n", "        valid_capacity_ = target_valid_temp;\n")]),
    ("c19-full", "C19", "bug", [(SB, "    bool full() const { return size() == capacity(); }\n", "    bool full() const { return size() == search_window_size_; }\n")]),
    ("c19-fullm", "C19", "bug", [(DB, "    bool full() const { return valid() == target(); }\n", "    bool full() const { return size() >= target(); }\n")]),
    ("c19-push", "C19", "bug", [(SB, PUSHS, PUSHS.replace("!full()", "size_ <= capacity_"))]),
    ("c19-push2", "C19", "bug", [(SB, PUSHS, PUSHS.replace("!full()", "size_ + 1 < capacity_"))]),
    ("c19-skip", "C19", "bug", [(SB, "        return compare_(back().distance(), distance) && full();\n", "        return !compare_(distance, back().distance()) && size_ >= search_window_size_;\n")]),
    ("c19-skipties", "C19", "bug", [(SB, "        return compare_(back().distance(), distance) && full();\n", "        return !compare_(distance, back().distance()) && full();\n")]),
    ("c19-skipm", "C19", "bug", [(DB, "        return full() && compare_(back().distance(), distance);\n", "        return valid() >= target_valid_ && compare_(back().distance(), distance);\n")]),
    ("c19-shift", "C19", "bug", [(SB, INS, INS.replace("end() + 1", "end()").replace("index, end(), ", "index, end() - 1, "))]),
    ("c19-order", "C19", "bug", [(SB, INS, "        value_type saved = neighbor;\n        (*index) = saved;\n        std::copy_backward(index, end(), end() + 1);\n")]),
    ("c19-half", "C19", "bug", [(SB, LB, LB.replace("            end(),\n", "            begin() + std::min(size_, search_window_size_),\n"))]),
    ("c19-scan1", "C19", "bug", [(SB, SCANS, SCANS.replace("            } while (back != start);\n", "            } while (false);\n"))]),
    ("c19-scan2", "C19", "bug", [(SB, SCANS, SCANS.replace("do {\n                --back;", "while (--back != start) {").replace("            } while (back != start);\n", "            }\n"))]),
    ("c19-scan3", "C19", "bug", [(SB, SCANS, SCANS.replace("compare_(candidate.distance(), neighbor.distance())", "candidate.visited()"))]),
    ("c19-scan4", "C19", "bug", [(DB, SCANM, SCANM.replace("compare_(candidate.distance(), neighbor.distance())", "!candidate.valid()"))]),
    ("c19-scan5", "C19", "bug", [(SB, SCANS, "        if (!visited_set_enabled()) {\n" + SCANS + "        }\n")]),
    ("c19-tail", "C19", "bug", [(SB, TAILS, TAILS.replace("std::min(size_ + 1, capacity())", "std::min(size_ + 1, capacity() + 1)"))]),
    ("c19-tail2", "C19", "bug", [(SB, TAILS, TAILS.replace("best_unvisited_ = std::min(best_unvisited_, i);", "if (i + 1 < best_unvisited_) best_unvisited_ = i;"))]),
    ("c19-tail3", "C19", "bug", [(DB, "        best_unvisited_ = std::min(best_unvisited_, i);\n", "        if (neighbor.valid()) best_unvisited_ = std::min(best_unvisited_, i);\n")]),
    ("c19-narrow", "C19", "bug", [(DB, "        best_unvisited_ = std::min(best_unvisited_, i);\n", "        best_unvisited_ = std::min<size_t>(best_unvisited_, static_cast<uint16_t>(i));\n")]),
    ("c19-narrow2", "C19", "bug", [(DB, "    size_t roi_end_ = 0;\n", "    uint16_t roi_end_ = 0;\n")]),
    ("c19-narrow3", "C19", "bug", [(DB, "    size_t best_unvisited_ = 0;\n", "    uint16_t best_unvisited_ = 0;\n"), (DB, "std::min(best_unvisited_, i)", "std::min<uint16_t>(best_unvisited_, i)")]),
    ("c19-done", "C19", "bug", [(SB, "return best_unvisited_ == std::min(size_, search_window_size_);", "return best_unvisited_ == std::min(size_, capacity_);")]),
    ("c19-done2", "C19", "bug", [(SB, "return best_unvisited_ == std::min(size_, search_window_size_);", "return best_unvisited_ == size_;")]),
    ("c19-donem", "C19", "bug", [(DB, "return best_unvisited_ == ((valid() < target_valid_) ? size() : roi_end_);", "return best_unvisited_ == ((valid() <= target_valid_) ? size() : roi_end_);")]),
    ("c19-next", "C19", "bug", [(SB, NEXTS, "        while (++best_unvisited_ != upper && candidates_[best_unvisited_ - 1].visited()) {}\n")]),
    ("c19-next2", "C19", "bug", [(SB, NEXTS, NEXTS.replace("++best_unvisited_ !=", "(best_unvisited_ += 1 + candidates_[best_unvisited_ + 1].visited()) <"))]),
    ("c19-next3", "C19", "bug", [(SB, "        size_t upper = std::min(size(), search_window_size_);\n", "        size_t upper = search_window_size_;\n")]),
    ("c19-next4", "C19", "bug", [(DB, NEXTM, NEXTM.replace("roi_end_", "target_valid_"))]),
    ("c19-next5", "C19", "bug", [(DB, "        node.set_visited();\n", "        if (node.valid()) node.set_visited();\n")]),
    ("c19-pushm", "C19", "bug", [(DB, PUSHM, PUSHM.replace("        if (valid) {\n            ++valid_;\n        }\n", "        ++valid_;\n"))]),
    ("c19-pushm2", "C19", "bug", [(DB, PUSHM, PUSHM.replace("        roi_end_ = candidates_.size();\n", "        if (valid) roi_end_ = candidates_.size();\n"))]),
    ("c19-pushm3", "C19", "bug", [(DB, "        if (full() && valid) {\n", "        if (full()) {\n")]),
    ("c19-case1", "C19", "bug", [(DB, CASE1, CASE1.replace("                    --roi_end_;\n                }\n                ++roi_end_;\n", "                    --roi_end_;\n                }\n"))]),
    ("c19-case1b", "C19", "bug", [(DB, CASE1, "                ++roi_end_;\n")]),
    ("c19-case2", "C19", "bug", [(DB, CASE2, "")]),
    ("c19-below", "C19", "bug", [(DB, "bool inserted_below = offset < roi_end_;", "bool inserted_below = offset <= roi_end_;")]),
    ("c19-splv", "C19", "bug", [(DB, SPLV, "                    --roi_end_;\n                    ++roi_end_;\n")]),
    ("c19-splv2", "C19", "bug", [(DB, SPLV, SPLV.replace("--roi_end_).valid()) {}", "roi_end_).valid()) { --roi_end_; }"))]),
    ("c19-spli", "C19", "bug", [(DB, SPLI, SPLI.replace("!this_valid", "!this_valid && valid() < valid_capacity_"))]),
    ("c19-nosplit", "C19", "bug", [(DB, NOSPLIT, NOSPLIT.replace("                valid_ -= 1;\n", ""))]),
    ("c19-drop2", "C19", "bug", [(DB, DROP2, DROP2.replace("- 2", "- 1"))]),
    ("c19-drop1", "C19", "bug", [(DB, DROP1, DROP1.replace(" + 1)", ")"))]),
    ("c19-lastv", "C19", "bug", [(DB, LASTV, "")]),
    ("c19-acc", "C19", "bug", [(DB, "        valid_ += static_cast<size_t>(neighbor.valid());\n", "        valid_ += static_cast<size_t>(neighbor.valid() && i < roi_end_);\n")]),
    ("c19-sortm", "C19", "bug", [(DB, SORTM, SORTM.replace("roi_end_ = i + 1;", "roi_end_ = i;"))]),
    ("c19-sortm2", "C19", "bug", [(DB, SORTM, SORTM.replace("valid_count == target_valid_", "valid_count == valid_capacity_"))]),
    ("c19-sortt", "C19", "bug", [(DB, SORTT, SORTT.replace("!back().valid()", "size() > valid_capacity_"))]),
    ("c19-sortt2", "C19", "bug", [(DB, "        if (slack() == 0) {\n            assert(!candidates_.empty());\n", "        if (valid_ >= target_valid_) {\n            assert(!candidates_.empty());\n")]),
    ("c19-sorts", "C19", "bug", [(SB, "    void sort() { std::sort(begin(), end(), compare_); }\n", "    void sort() { std::sort(begin(), begin() + std::min(size_, search_window_size_), compare_); }\n")]),
    ("c19-mask", "C19", "bug", [(FL, "lib::bitmask<integer_type>(0, N - 1)", "lib::bitmask<integer_type>(0, N - 2)")]),
    ("c19-check", "C19", "bug", [(FL, "            return (key >> 16) == value;\n", "            return ((key >> 16) & 0xff) == (value & 0xff);\n")]),
    ("c19-emplace", "C19", "bug", [(FL, "        bool b = check(key, v);\n        v = value(key);\n", "        v = value(key);\n        bool b = check(key, v);\n")]),
    ("c19-reset", "C19", "bug", [(FL, "std::fill(values_.begin(), values_.end(), sentinel);", "std::fill(values_.begin(), values_.begin() + values_.size() / 2, sentinel);")]),
    ("c19-reset0", "C19", "bug", [(FL, "std::fill(values_.begin(), values_.end(), sentinel);", "std::fill(values_.begin(), values_.end(), value_type{0});")]),
    # ---- same behaviour
    ("c19-same-clear", "C19", "same", [(SB, CLS, "        if (visited_.has_value()) {\n            visited_->reset();\n        }\n        best_unvisited_ = 0;\n        size_ = best_unvisited_;\n")]),
    ("c19-same-clearm", "C19", "same", [(DB, CLM, CLM.replace("candidates_.clear();", "candidates_.resize(0);"))]),
    ("c19-same-move", "C19", "same", [(SB, INS, INS.replace("copy_backward", "move_backward"))]),
    ("c19-same-loop", "C19", "same", [(SB, INS, "        for (auto it = end(); it != index; --it) {\n            *it = *(it - 1);\n        }\n        (*index) = neighbor;\n")]),
    ("c19-same-upper", "C19", "same", [(SB, LB, UB)]),
    ("c19-same-upperm", "C19", "same", [(DB, LB, UB)]),
    ("c19-same-scan", "C19", "same", [(SB, SCANS, "        for (auto back = pos; back != start;) {\n            --back;\n            const auto& candidate = *back;\n            if (compare_(candidate.distance(), neighbor.distance())) {\n                break;\n            }\n            if (candidate.id() == neighbor.id()) {\n                return size() + 1;\n            }\n        }\n")]),
    ("c19-same-helper", "C19", "same", [(SB, SCANS, "        if (holds(start, pos, neighbor)) {\n            return size() + 1;\n        }\n"), (SB, "    size_t insert_inner(value_type neighbor) {\n", "    bool holds(const_iterator start, const_iterator pos, const value_type& neighbor) const {\n        while (pos != start) {\n            --pos;\n            if (compare_(pos->distance(), neighbor.distance())) {\n                return false;\n            }\n            if (pos->id_ == neighbor.id()) {\n                return true;\n            }\n        }\n        return false;\n    }\n\n    size_t insert_inner(value_type neighbor) {\n")]),
    ("c19-same-tail", "C19", "same", [(SB, TAILS, "        if (size_ < capacity_) {\n            ++size_;\n        }\n        if (i < best_unvisited_) {\n            best_unvisited_ = i;\n        }\n")]),
    ("c19-same-dist", "C19", "same", [(SB, "        size_t i = pos - start;\n", "        size_t i = std::distance(start, pos);\n")]),
    ("c19-same-skip", "C19", "same", [(SB, "        return compare_(back().distance(), distance) && full();\n", "        if (!full()) {\n            return false;\n        }\n        return compare_(back().distance(), distance);\n")]),
    ("c19-same-done", "C19", "same", [(SB, "return best_unvisited_ == std::min(size_, search_window_size_);", "const size_t upper = size_ < search_window_size_ ? size_ : search_window_size_; return !(best_unvisited_ < upper);")]),
    ("c19-same-donem", "C19", "same", [(DB, "return best_unvisited_ == ((valid() < target_valid_) ? size() : roi_end_);", "if (valid() < target_valid_) { return best_unvisited_ == size(); } return best_unvisited_ == roi_end_;")]),
    ("c19-same-donem2", "C19", "same", [(DB, "return best_unvisited_ == ((valid() < target_valid_) ? size() : roi_end_);", "return best_unvisited_ == roi_end_;")]),
    ("c19-same-next", "C19", "same", [(SB, NEXTS, "        ++best_unvisited_;\n        while (best_unvisited_ < upper) {\n            if (!candidates_[best_unvisited_].visited()) {\n                break;\n            }\n            ++best_unvisited_;\n        }\n")]),
    ("c19-same-next2", "C19", "same", [(DB, NEXTM, "        size_t next = best_unvisited_ + 1;\n        while (next != roi_end_ && candidates_[next].visited()) {\n            ++next;\n        }\n        best_unvisited_ = next;\n")]),
    ("c19-same-push", "C19", "same", [(SB, PUSHS, "        if (full()) {\n            return;\n        }\n        candidates_[size_++] = neighbor;\n")]),
    ("c19-same-pushm", "C19", "same", [(DB, "        if (full() && valid) {\n            return;\n        }\n", "        if (valid && valid_ >= valid_capacity_) {\n            return;\n        }\n")]),
    ("c19-same-pushm2", "C19", "same", [(DB, PUSHM, "        valid_ += valid ? 1 : 0;\n        candidates_.push_back(neighbor);\n        roi_end_ = size();\n")]),
    ("c19-same-case1", "C19", "same", [(DB, CASE1, "                size_t last = roi_end_;\n                while (!candidates_[last].valid()) {\n                    --last;\n                }\n                roi_end_ = last + 1;\n")]),
    ("c19-same-case1b", "C19", "same", [(DB, CASE1, "                roi_end_ = walk_back(roi_end_) + 1;\n")]),
    ("c19-same-splv", "C19", "same", [(DB, SPLV, "                    roi_end_ = walk_back(roi_end_ - 1) + 1;\n")]),
    ("c19-same-splv2", "C19", "same", [(DB, SPLV, "                    --roi_end_;\n                    while (!candidates_[roi_end_].valid()) {\n                        --roi_end_;\n                    }\n                    ++roi_end_;\n")]),
    ("c19-same-drop", "C19", "same", [(DB, DROP2, "            size_t last = candidates_.size() - 2;\n            while (!candidates_[last].valid()) {\n                --last;\n            }\n            candidates_.resize(last + 1);\n")]),
    ("c19-same-slack", "C19", "same", [(DB, NOSPLIT, "            candidates_.resize(roi_end_);\n            if (valid_ > valid_capacity_) {\n                --valid_;\n            }\n")]),
    ("c19-same-sortt", "C19", "same", [(DB, SORTT, "            candidates_.resize(walk_back(candidates_.size() - 1) + 1);\n")]),
    ("c19-same-sortm", "C19", "same", [(DB, SORTM, "                valid_count += 1;\n                if (valid_count == target_valid_) {\n                    // One past the last valid element.\n                    roi_end_ = 1 + i;\n                    break;\n                }\n")]),
    ("c19-same-fill", "C19", "same", [(FL, "std::fill(values_.begin(), values_.end(), sentinel);", "for (auto& v : values_) { v = sentinel; }")]),
    ("c19-same-emplace", "C19", "same", [(FL, "        bool b = check(key, v);\n        v = value(key);\n", "        const bool b = contains(key);\n        v = value(key);\n")]),
    ("c19-next6", "C19", "bug", [(DB, NEXTM, "        while (++best_unvisited_ != roi_end_ && candidates_[roi_end_ - 1].visited()) {}\n")]),
    ("c19-same-assign", "C19", "same", [(FL, "std::fill(values_.begin(), values_.end(), sentinel);", "values_.assign(filter_capacity, sentinel);")]),
]
