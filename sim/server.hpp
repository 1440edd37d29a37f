// The server side of a duel: the real translator and its context, fed with the
// stub engine's frames.
#pragma once
#include "client.hpp"
#include <google/protobuf/arena.h>
#include <new>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/server/basic_encode_context.hpp>

namespace sim
{

namespace oc = YGOpen::Codec::Edo9300::OCGCore;
using RealContext = YGOpen::Server::BasicEncodeContext;
using EncState = YGOpen::Codec::EncodeOneResult::State;

// A context living in memory with chosen earlier contents.
class ContextBox
{
public:
	ContextBox(Ctx& c, uint32_t pattern, bool reuse)
		: c_(c), reuse_(reuse), mem_(static_cast<unsigned char*>(reuse ? c.spare.take(sizeof(RealContext)) : ::operator new(sizeof(RealContext))))
	{
		static_assert(alignof(RealContext) <= __STDCPP_DEFAULT_NEW_ALIGNMENT__);
		auto* volatile m = mem_;
		for(size_t i = 0; i < sizeof(RealContext); i++)
			*const_cast<unsigned char volatile*>(m + i) = static_cast<unsigned char>(pattern >> ((i & 3) * 8));
		ctx_ = new(m) RealContext;
	}
	~ContextBox()
	{
		ctx_->~RealContext();
		if(reuse_)
			c_.spare.give(mem_, sizeof(RealContext));
		else
			::operator delete(mem_);
	}
	ContextBox(ContextBox const&) = delete;
	ContextBox& operator=(ContextBox const&) = delete;
	RealContext& get() { return *ctx_; }

private:
	Ctx& c_;
	bool reuse_;
	unsigned char* mem_;
	RealContext* ctx_;
};

struct Rec // one processed frame
{
	std::shared_ptr<Frm const> f;
	bool has = false;
	std::string msg;
};

enum ArenaMode
{
	ARENA_SHARED, // one arena for the whole duel
	ARENA_RESET,  // reset after every message
	ARENA_EACH,   // a new arena per message
};

// Translator process: everything here is lost in a crash.
class Server
{
public:
	Server(Ctx& c, uint32_t pattern, int arena_mode)
		: c_(c)
		, reuse_(c.prop != "C16" && (mix64(pattern) & 1))
		, fixed_(c.prop != "C16" && (mix64(pattern) & 6) == 2)
		, box_(c, pattern, reuse_)
		, mode_(arena_mode)
	{
		fresh_arena();
	}
	~Server()
	{
		drop_arena();
		if(buf_)
			c_.spare.give(buf_, BUF);
	}
	Server(Server const&) = delete;
	Server& operator=(Server const&) = delete;

	RealContext& context() { return box_.get(); }

	// Translates one frame as the server loop does.
	Rec process(std::shared_ptr<Frm const> const& f, bool framing = false)
	{
		Rec r;
		r.f = f;
		if(f->native)
		{
			pd::Msg m;
			bool ok = m.ParseFromString(f->bytes);
			assert(ok);
			(void)ok;
			box_.get().parse(m);
			r.has = true;
			r.msg = f->bytes;
			return r;
		}
		auto n = f->bytes.size();
		if(fixed_ && n <= BUF)
		{
			// One buffer for everything, as a server would; what was in it
			// before stays behind the message.
			if(!buf_)
				buf_ = static_cast<uint8_t*>(c_.spare.take(BUF)), std::memset(buf_, 0x5A, BUF);
			std::memcpy(buf_, f->bytes.data(), n);
			one(buf_, n, r, framing);
			return r;
		}
		std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
		std::memcpy(buf.get(), f->bytes.data(), n);
		one(buf.get(), n, r, framing);
		return r;
	}

	// Several frames back to back in one buffer.
	bool process_stream(std::vector<std::shared_ptr<Frm const>> const& fs, std::vector<Rec>& out)
	{
		size_t n = 0;
		for(auto& f : fs)
			n += f->bytes.size();
		std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
		size_t at = 0;
		for(auto& f : fs)
		{
			std::memcpy(buf.get() + at, f->bytes.data(), f->bytes.size());
			at += f->bytes.size();
		}
		at = 0;
		for(auto& f : fs)
		{
			Rec r;
			r.f = f;
			auto got = one(buf.get() + at, f->bytes.size(), r, true);
			out.push_back(std::move(r));
			if(c_.failed())
				return false;
			at += got;
		}
		return true;
	}

	// Translates without touching the log (snapshots for one viewer).
	bool aside(Frm const& f, pd::Msg& out)
	{
		auto n = f.bytes.size();
		std::unique_ptr<uint8_t[]> buf(new uint8_t[n]);
		std::memcpy(buf.get(), f.bytes.data(), n);
		google::protobuf::Arena a;
		auto e = oc::encode_one(a, box_.get(), buf.get());
		if(e.state != EncState::OK || !e.msg)
			return false;
		std::string s;
		e.msg->SerializeToString(&s);
		out.Clear();
		return out.ParseFromString(s);
	}

	void reset_arena() { arena_->Reset(); }

private:
	using Arena = google::protobuf::Arena;
	static constexpr size_t BUF = 65536;
	Ctx& c_;
	bool const reuse_, fixed_; // contexts and arenas, input buffers at addresses used before
	ContextBox box_;
	int mode_;
	Arena* arena_ = nullptr;
	uint8_t* buf_ = nullptr;

	void drop_arena()
	{
		if(!arena_)
			return;
		arena_->~Arena();
		if(reuse_)
			c_.spare.give(arena_, sizeof(Arena));
		else
			::operator delete(arena_);
		arena_ = nullptr;
	}
	void fresh_arena()
	{
		drop_arena();
		arena_ = new(reuse_ ? c_.spare.take(sizeof(Arena)) : ::operator new(sizeof(Arena))) Arena;
	}

	size_t one(uint8_t const* data, size_t n, Rec& r, bool framing)
	{
		auto const& f = *r.f;
		if(mode_ == ARENA_EACH)
			fresh_arena();
		auto e = oc::encode_one(*arena_, box_.get(), data);
		if(framing)
		{
			static const EncState want[] = {EncState::UNKNOWN, EncState::OK, EncState::SWALLOWED};
			if(e.state != want[f.expect])
				c_.fail("framing", std::string(f.name) + " (id " + std::to_string(data[0]) + ") reported as state " + std::to_string(static_cast<int>(e.state)));
			else if((e.msg != nullptr) != (f.expect == 1))
				c_.fail("framing", std::string(f.name) + (e.msg ? " yields a message" : " yields no message"));
			else if(f.expect != 0 && e.bytes_read != n)
				c_.fail("framing", std::string(f.name) + " (id " + std::to_string(data[0]) + ") consumed " + std::to_string(e.bytes_read) + " of " + std::to_string(n) + " bytes");
		}
		if(e.state == EncState::OK && e.msg)
		{
			box_.get().parse(*e.msg);
			r.has = true;
			e.msg->SerializeToString(&r.msg);
		}
		if(mode_ == ARENA_RESET)
			arena_->Reset();
		return e.bytes_read;
	}
};

void default_weights(std::string const& prop, std::vector<uint32_t>& w);
void configure(Ctx& c, Engine& e, std::string const& prop);
uint32_t choose_steps(Ctx& c, Engine const& e);

} // namespace sim
