// Reduces translated messages and answers to engine-independent meaning.
#pragma once
#include "engine.hpp"

namespace sim
{

// Resolves a place of a translated message on a viewer's board:
// token*4+1 for a card, Engine::lit_of for anything else.
using Resolver = std::function<int64_t(pd::Place const&)>;

P from_place(pd::Place const& p);
std::vector<int64_t> canon_of(pd::Msg const& m, Resolver const& res);
std::string canon_str(std::vector<int64_t> const& c);
// Chooses a legal answer from the translated request alone.
void make_answer(Choices& ch, pd::Msg::Request const& r, Resolver const& res,
                 pd::Answer& out, std::vector<int64_t>& intent);

} // namespace sim
