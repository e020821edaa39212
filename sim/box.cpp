// Judges histories of C29: every operation on a domain took effect as a whole, at its place, or not at all.
#include "box_model.hpp"
#include "scenario.hpp"
#include <map>

LinResult check_boxes(const std::vector<HOp> &h)
{
    using boxes::Model;
    typedef std::vector<std::unique_ptr<Model::Data>> Set;
    std::map<uint64_t, Set> states;
    for (auto &o : h)
    {
        if (o.op.code == OP_X_LEAKS)
        {
            if (o.status == ST_OK && o.res) return {false, std::to_string(o.res) + " persistent objects are allocated but not reachable: " + op_text(o)};
            continue;
        }
        if (o.op.code != OP_X_DO || o.status == ST_THREW) continue; // an operation that failed has no effect
        Set &s = states[o.op.k];
        if (s.empty()) s.push_back(std::make_unique<Model::Data>());
        Set next;
        for (auto &d : s)
        {
            Model m(*d);
            uint64_t r = boxes::perform(m, o.op.a, o.op.b);
            if (o.status == ST_PENDING) next.push_back(std::move(d));
            else if (r != o.res) continue;
            if ((o.op.b & 255) != boxes::M_READ || o.status == ST_OK) next.push_back(std::make_unique<Model::Data>(m.x));
        }
        if (next.empty()) return {false, "the contents differ from what the operations before can have left (" + std::to_string(s.size()) + " possible states): " + op_text(o)};
        s = std::move(next);
    }
    return {true, ""};
}
