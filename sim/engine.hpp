// Stub of the duel core: owns the authoritative state, speaks the core's wire
// format, and states for every message what a viewer must end up with.
#pragma once
#include "view.hpp"
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>

namespace sim
{

namespace pd = YGOpen::Proto::Duel;

enum Canon : int64_t
{
	CN_NONE = 0,
	CN_CONFIRM = 100,
	CN_SHUFFLE_PILE,
	CN_UPDATE,
	CN_CHAIN_PUSH,
	CN_CHAIN_POP,
	CN_CHAIN_STATUS,
	CN_SELECTION,
	CN_ATTACK,
	CN_DESCRIPTION,
	CN_COIN,
	CN_DICE,
	CN_RPS,
	CN_CARD,  // card event with its reason
	CN_PILE,  // pile event with its reason
	CN_TURN,
	CN_PHASE,
	CN_LP,
	CN_BLOCK,
	CN_FINISH,
	CN_STATE,
	CN_EXCHANGE,
	CN_QUERIES,
	CN_REQ = 200,
	CN_OTHER = 900,
};

// Field order follows the single-valued query table.
enum QF
{
	QF_CODE, QF_POSITION, QF_ALIAS, QF_TYPE, QF_LEVEL, QF_RANK, QF_ATTRIBUTE,
	QF_RACE, QF_ATK, QF_DEF, QF_BATK, QF_BDEF, QF_EQUIP, QF_OWNER, QF_STATUS,
	QF_PUBLIC, QF_LSCALE, QF_RSCALE, QF_HIDDEN, QF_COVER, QF_LINK_RATE,
	QF_LINK_ARROW, QF_COUNT
};
uint64_t qf_bit(int f);

struct QUpd // information revealed about one card
{
	int token = 0;
	std::vector<std::pair<int, uint64_t>> fields;
	bool has_targets = false, has_counters = false;
	std::vector<uint64_t> targets;
	std::vector<std::pair<uint32_t, uint32_t>> counters;
};

enum AskKind
{
	ASK_ATTRIB, ASK_RACE, ASK_NUMBER, ASK_OPTION, ASK_POSITION, ASK_RPS,
	ASK_CHAIN, ASK_EFFECTYN, ASK_YESNO, ASK_PLACE, ASK_DISFIELD, ASK_SORT,
	ASK_CARD, ASK_CARD_LIMBO, ASK_UNSELECT, ASK_TRIBUTE, ASK_IDLE, ASK_BATTLE,
	ASK_SUM, ASK_CODE, // not translated upstream: native only
	ASK_COUNT
};

struct Ask
{
	AskKind kind{};
	int replier = 0;
	// Options as the engine numbers them: token, literal place or value.
	struct Opt
	{
		int token = 0;
		P place;
		uint64_t value = 0;
	};
	std::vector<std::vector<Opt>> lists;
	bool flag1 = false, flag2 = false, flag3 = false;
	uint32_t min = 0, max = 0, count = 0;
	uint64_t mask = 0;
};

struct Frm
{
	std::string bytes;
	bool native = false;
	int expect = 1; // 0 unknown, 1 message, 2 swallowed
	char const* name = "";
	std::shared_ptr<View const> after;
	std::vector<int> setwise; // tokens whose mutual placement is unspecified
	std::vector<int> unspec;  // tokens whose earlier information is unspecified
	std::vector<int64_t> canon;
	std::shared_ptr<Ask> ask;
	std::vector<QUpd> queries;
	bool snapshot = false; // full board state: viewers rebuild their cards
	bool sets_turn = false;
	bool quiescent = true;
	bool finish = false;
	uint64_t at_ms = 0;
};

struct EngineCfg
{
	int scale = 0;            // 0 tiny, 1 duel-sized, 2 huge
	bool native = true;       // emit event shapes other cores could produce
	bool skill = false;       // use the skill zone (native events only)
	bool shuffle_set = true;  // set-card shuffles
	bool queries = true;
	bool asks = true;
	bool noise = true;
	bool finish = false;
	std::vector<uint32_t> w;  // op weights
};

enum Op
{
	OP_DRAW, OP_MOVE, OP_ATTACH, OP_DETACH, OP_XYZ, OP_RANKUP, OP_LEAVE,
	OP_LIMBO_ADD, OP_LIMBO_DEL, OP_SWAP, OP_SHUFFLE_SET, OP_SWAP_GRAVE,
	OP_REVERSE, OP_TAG, OP_RELOAD, OP_LP, OP_TURN, OP_PHASE, OP_CHAIN,
	OP_CHAIN_POP, OP_DISABLED, OP_META, OP_SELECT_META, OP_QUERY_LOC,
	OP_QUERY_ONE, OP_ASK, OP_NOISE, OP_UNKNOWN, OP_NATIVE_MOVE,
	OP_NATIVE_PILE, OP_NATIVE_STATE, OP_MILL, OP_MATCH_KILL, OP_WIN,
	OP_DECK_TOP, OP_TURN_BURST, OP_COUNT
};
char const* op_name(int op);

struct W
{
	std::string s;
	template<typename T>
	W& raw(T v)
	{
		s.append(reinterpret_cast<char const*>(&v), sizeof v);
		return *this;
	}
	W& u8(uint32_t v) { return raw(static_cast<uint8_t>(v)); }
	W& u16(uint32_t v) { return raw(static_cast<uint16_t>(v)); }
	W& u32(uint32_t v) { return raw(v); }
	W& u64(uint64_t v) { return raw(v); }
};

class Engine
{
public:
	explicit Engine(Ctx& c) : c_(c) {}
	EngineCfg cfg;
	View v;
	std::vector<Frm> out; // frames not yet taken by the server
	std::shared_ptr<Ask> pending; // request waiting for an answer
	bool finished = false;
	std::vector<uint32_t> kills; // match kills declared so far

	void start();
	void churn(); // cards by the hundred leave and come in one event              // first message(s)
	bool step();               // one weighted op; false if nothing was possible
	void do_op(int op);
	bool idle() const { return out.empty(); }
	// Full board state for one reconnecting viewer.
	Frm snapshot();
	// Parses a response as the core would; returns a canonical description of
	// what was chosen, or empty if malformed.
	static std::vector<int64_t> parse_answer(Ask const& a,
	                                         std::vector<uint8_t> const& b,
	                                         std::string& err);
	uint32_t code_of(int tok) { return static_cast<uint32_t>(mix64(static_cast<uint64_t>(tok) * 7919u)); }
	int next_token() const { return next_; }
	void restore(View const& view, bool fin, std::vector<uint32_t> k)
	{
		v = view;
		out.clear();
		pending.reset();
		finished = fin;
		kills = std::move(k);
		last_.reset();
		dirty_ = true;
	}
	uint32_t heavy(uint32_t max);

private:
	Ctx& c_;
	int next_ = 1;
	bool dirty_ = true;
	std::shared_ptr<View const> last_;

	int tok() { return next_++; }
	std::shared_ptr<View const> snap()
	{
		if(dirty_ || !last_)
		{
			last_ = std::make_shared<View const>(v);
			dirty_ = false;
		}
		return last_;
	}
	Frm& emit(W& w, char const* name, int expect = 1);
	Frm& emit_native(pd::Msg const& m, char const* name);
	void loc(W& w, P const& p, uint32_t pos = 1);
	void overlay(W& w, P const& owner, int oseq);
	void move_msg(P const& from, bool from_ov, P const& to, bool to_ov, uint32_t code,
	              char const* name, int expect, uint32_t reason);
	bool pick(P& out, bool piles, bool zones, bool mats, bool zones_with_mats);
	bool pick_zone(P& out, bool native_ok);
	P pick_pile_pos(int kind_hint = -1);
	uint32_t val32();
	uint64_t val64();
	int64_t ref(int tok) { return static_cast<int64_t>(tok) * 4 + 1; }
	int64_t lit(P const& p);
	uint64_t effect(uint32_t& code, uint32_t& index);
	QUpd query_blob(W& w, int tok, P const& at, bool overlays, std::vector<QUpd>& extra);
	void reload_wire(W& w);

	void op_draw();
	void op_move();
	void op_attach();
	void op_detach();
	void op_xyz(bool rankup);
	void op_leave();
	void interlude();
	void op_limbo_add();
	void op_limbo_del();
	void op_swap();
	void op_shuffle_set();
	void op_swap_grave();
	void op_reverse();
	void op_tag();
	void op_lp();
	void op_turn();
	void op_phase();
	void op_chain();
	void chain_link();
	void op_chain_pop();
	void op_disabled();
	void op_meta();
	void op_select_meta();
	void op_query_loc();
	void op_query_one();
	void op_ask();
	void op_noise();
	void op_unknown();
	void op_native_move();
	void op_native_pile();
	void op_native_state();
	void op_mill();
	void op_deck_top();
	void op_win();

public:
	static int64_t lit_of(P const& p);
	void op_reload();
};

} // namespace sim
