From 9559adde37c9cd954d9b29a4943ce2e93371b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 01/12] fix: swap the material named by its overlay sequence

card_swap indexed the materials of the first place with the zone sequence
instead of the overlay sequence.
---
 include/ygopen/client/frame.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/client/frame.hpp b/include/ygopen/client/frame.hpp
index 2d99318..caf5cb1 100644
--- a/include/ygopen/client/frame.hpp
+++ b/include/ygopen/client/frame.hpp
@@ -397,11 +397,11 @@ public:
 			}
 			else if(!is_a_not_mat && is_b_not_mat)
 			{
-				std::swap(za.materials[a.seq()], zb.card);
+				std::swap(za.materials[a.oseq()], zb.card);
 			}
 			else // !is_a_not_mat && !is_b_not_mat
 			{
-				std::swap(za.materials[a.seq()], zb.materials[b.oseq()]);
+				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
 			}
 		}
 	}
-- 
2.43.0


From 00622e7375c44899b33aaaa9660e9f52275e0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 02/12] fix: keep the cards cut off when a recorded pile
 shrinks

The slice saved for undoing must start at the new size of the pile, not at
the number of cards that are cut off.
---
 include/ygopen/client/frame_limbo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index b7cd24f..17c4cab 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -99,7 +99,7 @@ public:
 		{
 			size_t diff = p.size() - count;
 			rsz_op.slice.resize(diff);
-			std::copy(p.cbegin() + diff, p.cend(), rsz_op.slice.begin());
+			std::copy(p.cbegin() + count, p.cend(), rsz_op.slice.begin());
 			p.resize(count);
 		}
 		assert(p.size() == count);
-- 
2.43.0


From 851eb2ab4d0cda9586e88d08269c62ddc75569ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:28 +0000
Subject: [PATCH 03/12] fix: initialise the match win reason

A duel without a match kill reported an indeterminate match win reason.
---
 include/ygopen/server/basic_encode_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/basic_encode_context.hpp b/include/ygopen/server/basic_encode_context.hpp
index dedac39..cff9f9a 100644
--- a/include/ygopen/server/basic_encode_context.hpp
+++ b/include/ygopen/server/basic_encode_context.hpp
@@ -99,7 +99,7 @@ private:
 
 	BoardType board_;
 
-	uint32_t match_win_reason_;
+	uint32_t match_win_reason_{};
 	std::map<Place, Place, YGOpen::Proto::Duel::PlaceLess> left_;
 	std::vector<Place> deferred_;
 };
-- 
2.43.0


From 5fa31bbf4f2f17b02e389a3737bf85cf7f9e87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 04/12] fix: place snapshot materials under the zone of their
 owner

Materials of a card in the field or pendulum zones were added to a spell
zone sequence that does not exist.
---
 src/codec/edo9300_ocgcore_encode.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index c32e1cd..03a7d1c 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -889,18 +889,11 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 					if(read<uint8_t>(data, "has card") == 0U)
 						continue;
 					skip<CSPos>(data, "position (current)");
-					if(loc == LOCATION_SPELL_ZONE)
-					{
-						auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
-						add_one(f_loc, f_seq, OSEQ_INVALID);
-					}
-					else
-					{
-						add_one(loc, seq, OSEQ_INVALID);
-					}
+					auto const [f_loc, f_seq] = fix_spell_loc_seq(loc, seq);
+					add_one(f_loc, f_seq, OSEQ_INVALID);
 					auto const mats = read<CCount>(data, "xyz mats count");
 					for(CCount oseq = 0U; oseq < mats; oseq++)
-						add_one(loc, seq, static_cast<COSeq>(oseq));
+						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
 				}
 			};
 			auto add_pile = [&](Location loc, CCount count)
-- 
2.43.0


From 4de8018ed8719e61717c3c494ef8cf6ba944d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 05/12] fix: answer with the zone the core offered

The field and pendulum zones do not fit in the location byte of a response
and have to be given as the spell zone sequences the core uses for them.
---
 src/codec/edo9300_ocgcore_decode.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 1270796..35fa7a7 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -6,6 +6,7 @@
 #include "ygopen/codec/edo9300_ocgcore_decode.hpp"
 
 #include <cstring>
+#include <ygopen/duel/constants/location.hpp>
 #include <ygopen/duel/constants/phase.hpp>
 #include <ygopen/proto/duel/answer.hpp>
 #include <ygopen/proto/duel/msg.hpp>
@@ -217,9 +218,22 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 		auto* ptr = out.data();
 		for(auto const& p : places)
 		{
+			auto loc = p.loc();
+			auto seq = p.seq();
+			// The core knows these zones as extra spell zone sequences.
+			if(loc == YGOpen::Duel::LOCATION_FIELD_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 5U;
+			}
+			else if(loc == YGOpen::Duel::LOCATION_PENDULUM_ZONE)
+			{
+				loc = YGOpen::Duel::LOCATION_SPELL_ZONE;
+				seq += 6U;
+			}
 			write(ptr, static_cast<int8_t>(p.con()));
-			write(ptr, static_cast<int8_t>(p.loc()));
-			write(ptr, static_cast<int8_t>(p.seq()));
+			write(ptr, static_cast<int8_t>(loc));
+			write(ptr, static_cast<int8_t>(seq));
 		}
 		break;
 	}
-- 
2.43.0


From f0b8ebe8f10554ae4dc19f8f6ca903a16587726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 06/12] fix: keep the order of materials when ranking up on the
 same zone

The core sequences the remaining materials again each time one is taken,
while the deferred ones are placed in front of them.
---
 src/codec/edo9300_ocgcore_encode.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 03a7d1c..8731ad1 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -1425,14 +1425,22 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 			for(auto const& def : context.take_deferred_xyz_mat())
 			{
 				auto const oseq = i++;
-				// Skip no-ops.
+				auto def_oseq = def.oseq();
 				if(def.con() == curr.con() && def.loc() == curr.loc() &&
-				   def.seq() == curr.seq() && def.oseq() == oseq)
-					continue;
+				   def.seq() == curr.seq() && def_oseq >= 0)
+				{
+					// Materials already on this zone sit after the ones that
+					// were placed so far.
+					def_oseq += oseq;
+					// Skip no-ops.
+					if(def_oseq == oseq)
+						continue;
+				}
 				auto* op = card->mutable_move()->add_ops();
 				auto* old_place = op->mutable_old_place();
 				auto* new_place = op->mutable_new_place();
 				*old_place = def;
+				old_place->set_oseq(def_oseq);
 				*new_place = curr;
 				new_place->set_oseq(oseq);
 			}
-- 
2.43.0


From e34ac1d9963b18395e1a26d16a28a349719589a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 07/12] fix: block the zones that the core disabled

MSG_FIELD_DISABLED sets the bits of the disabled zones; every other zone
was reported as blocked instead.
---
 src/codec/edo9300_ocgcore_encode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_encode.cpp b/src/codec/edo9300_ocgcore_encode.cpp
index 8731ad1..20d6005 100644
--- a/src/codec/edo9300_ocgcore_encode.cpp
+++ b/src/codec/edo9300_ocgcore_encode.cpp
@@ -643,7 +643,8 @@ auto encode_one(google::protobuf::Arena& arena, IEncodeContext& context,
 	case MSG_FIELD_DISABLED:
 	{
 		auto* zone_block = create_event()->mutable_zone_block();
-		unpack_zones(read<CField>(data, "zones"), 0U,
+		// NOTE: Here set bits are the zones, the opposite of selections.
+		unpack_zones(~read<CField>(data, "zones"), 0U,
 		             [&]() { return zone_block->add_zones(); });
 		break;
 	}
-- 
2.43.0


From c1d9894201d18e034e1a2d073e64cf99a5c818b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:21 +0000
Subject: [PATCH 08/12] fix: choose bits beyond the 32nd

---
 include/ygopen/bit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ygopen/bit.hpp b/include/ygopen/bit.hpp
index bf98a79..c64289b 100644
--- a/include/ygopen/bit.hpp
+++ b/include/ygopen/bit.hpp
@@ -47,7 +47,7 @@ template<typename T>
 	unsigned i = std::numeric_limits<T>::digits;
 	while(i != 0U)
 	{
-		chosen |= x & (1U << (i - 1U));
+		chosen |= x & (T{1U} << (i - 1U));
 		if(popcnt(chosen) >= count)
 			break;
 		i--;
@@ -65,7 +65,7 @@ template<typename T>
 	unsigned i = 0;
 	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)
 	{
-		chosen |= x & (1U << i);
+		chosen |= x & (T{1U} << i);
 		i++;
 	}
 	return chosen;
-- 
2.43.0


From 2d1279166ed39268869c21c3900d94cb80887c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 09/12] fix: toss the coin with generators of any width

---
 include/ygopen/server/room.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ygopen/server/room.hpp b/include/ygopen/server/room.hpp
index 3ff9b23..59bf5f8 100644
--- a/include/ygopen/server/room.hpp
+++ b/include/ygopen/server/room.hpp
@@ -318,7 +318,7 @@ private:
 		{
 			auto* e = event_();
 			auto* dftr = e->mutable_deciding_first_turn()->mutable_result();
-			auto const winner = uint32_t{rng_() % 2U};
+			auto const winner = static_cast<uint32_t>(rng_() % 2U);
 			dftr->set_team_going_first(winner);
 			dftr->set_coin_result(
 				static_cast<RoomEvent::DecidingFirstTurn::Result::CoinResult>(
-- 
2.43.0


From 150c1cef0129b4735a0a66baa72e0409febb5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 10/12] fix: record pushes and pops of an undoable value

Chain stack events on a recording board reached assert(false), and so did
erasing its history.
---
 include/ygopen/client/undoable.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/ygopen/client/undoable.hpp b/include/ygopen/client/undoable.hpp
index a7d5cc0..c6eb253 100644
--- a/include/ygopen/client/undoable.hpp
+++ b/include/ygopen/client/undoable.hpp
@@ -5,7 +5,10 @@
  */
 #ifndef YGOPEN_CLIENT_UNDOABLE_HPP
 #define YGOPEN_CLIENT_UNDOABLE_HPP
+#include <cassert>
+#include <iterator>
 #include <list>
+#include <utility>
 
 namespace YGOpen::Client
 {
@@ -49,9 +52,10 @@ public:
 		current_--;
 	}
 
+	// Forget values that were added after the current one.
 	constexpr auto erase_history() noexcept -> void
 	{
-		assert(false); // TODO
+		values_.erase(std::next(current_), values_.cend());
 	}
 
 	// FIXME: Too lazy to do something else, should probably be optimized
@@ -68,24 +72,26 @@ public:
 	template<typename... Args>
 	constexpr auto push_back(Args&&... args) noexcept -> void
 	{
-		assert(false); // TODO
+		if(current_ == --values_.cend())
+			values_.emplace_back(*current_).push_back(
+				std::forward<Args>(args)...);
+		current_++;
 	}
 
 	constexpr auto pop_back() noexcept -> void
 	{
-		assert(false); // TODO
+		if(current_ == --values_.cend())
+			values_.emplace_back(*current_).pop_back();
+		current_++;
 	}
 
 	template<typename... Args>
-	constexpr auto undo_push_back(Args&&... args) noexcept -> void
+	constexpr auto undo_push_back(Args&&... /*args*/) noexcept -> void
 	{
-		assert(false); // TODO
+		undo();
 	}
 
-	constexpr auto undo_pop_back() noexcept -> void
-	{
-		assert(false); // TODO
-	}
+	constexpr auto undo_pop_back() noexcept -> void { undo(); }
 
 private:
 	ContainerType values_;
-- 
2.43.0


From 63bf61651839ffa6d2eaafbceb89cad199492bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 11/12] fix: undo set card shuffles on a recording frame

Stepping back over the shuffle reached assert(false).
---
 include/ygopen/client/frame_limbo.hpp | 36 ++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/include/ygopen/client/frame_limbo.hpp b/include/ygopen/client/frame_limbo.hpp
index 17c4cab..a9c5f2b 100644
--- a/include/ygopen/client/frame_limbo.hpp
+++ b/include/ygopen/client/frame_limbo.hpp
@@ -185,7 +185,41 @@ public:
 	constexpr auto undo_card_shuffle(InputIt previous, InputIt current,
 	                                 size_t count) noexcept -> void
 	{
-		assert(false); // TODO
+		// NOTE: Follows which zones `card_shuffle` swapped, then swaps them
+		// back starting from the last ones.
+		using namespace YGOpen::Duel;
+		constexpr size_t UPPER_BOUND = zone_seq_lim(LOCATION_MONSTER_ZONE);
+		assert(count <= UPPER_BOUND);
+		std::array<uint32_t, UPPER_BOUND> seqs{};
+		for(size_t i = 0U; i < count; i++)
+			seqs[i] = (*previous++).seq();
+		std::array<PlaceType const*, UPPER_BOUND> swapped_to{};
+		std::array<uint32_t, UPPER_BOUND> swapped_from{};
+		size_t swaps = 0U;
+		for(size_t i = 0U; i < count; i++)
+		{
+			auto const& p = *current++;
+			if(is_empty(p))
+				continue;
+			swapped_to[swaps] = &p;
+			swapped_from[swaps++] = seqs[i];
+			auto const seq = p.seq();
+			for(size_t j = 0U; j < count; j++)
+			{
+				if(seqs[j] != seq)
+					continue;
+				seqs[j] = seqs[i];
+				break;
+			}
+			seqs[i] = seq;
+		}
+		while(swaps != 0U)
+		{
+			auto const& p = *swapped_to[--swaps];
+			std::swap(
+				this->zone(get_con(p), get_loc(p), swapped_from[swaps]),
+				this->zone(p));
+		}
 	}
 
 private:
-- 
2.43.0


From ac2b05d6f3192efae4c41c93a0479fd081154646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 12/12] fix: Write race answers with their full 64-bit width

---
 src/codec/edo9300_ocgcore_decode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/edo9300_ocgcore_decode.cpp b/src/codec/edo9300_ocgcore_decode.cpp
index 35fa7a7..2ccc08c 100644
--- a/src/codec/edo9300_ocgcore_decode.cpp
+++ b/src/codec/edo9300_ocgcore_decode.cpp
@@ -177,7 +177,10 @@ auto decode_one_answer(Proto::Duel::Msg::Request const& request,
 	}
 	case Answer::kSelectRace:
 	{
-		response_i(answer.select_race());
+		// NOTE: Unlike the rest, races are 64-bit wide.
+		out.resize(sizeof(uint64_t));
+		auto* ptr = out.data();
+		write<uint64_t>(ptr, answer.select_race());
 		break;
 	}
 	case Answer::kSelectRockPaperScissors:
-- 
2.43.0

