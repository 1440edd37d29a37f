// Reference model: the engine's authoritative state, with an opaque token per
// card. Written independently of the code under test.
#pragma once
#include "core.hpp"
#include <array>
#include <cassert>

namespace sim
{

enum Kind : int
{
	K_MD = 0,
	K_HAND = 1,
	K_GY = 2,
	K_BAN = 3,
	K_EX = 4,
	K_MZ = 5,
	K_SZ = 6,
	K_FZ = 7,
	K_PZ = 8,
	K_SK = 9,
	K_NONE = 10,
};
constexpr int N_PILES = 5;
constexpr int N_ZONES = 7 + 5 + 1 + 2 + 1;
inline int zone_count(int k)
{
	static const int n[] = {7, 5, 1, 2, 1};
	return n[k - K_MZ];
}
inline int zone_base(int k)
{
	static const int n[] = {0, 7, 12, 13, 15};
	return n[k - K_MZ];
}
inline bool kpile(int k) { return k <= K_EX; }
inline bool kzone(int k) { return k >= K_MZ && k <= K_SK; }
// Location value in translated messages.
inline uint32_t kloc(int k)
{
	static const uint32_t l[] = {0x1, 0x2, 0x10, 0x20, 0x40, 0x4, 0x8, 0x100, 0x200, 0x400, 0};
	return l[k];
}
inline int loc_kind(uint32_t loc)
{
	for(int k = 0; k < K_NONE; k++)
		if(kloc(k) == loc)
			return k;
	return loc == 0 ? K_NONE : -1;
}
inline char const* kname(int k)
{
	static const char* n[] = {"deck", "hand", "grave", "banished", "extra", "monster", "spell", "field", "pendulum", "skill", "none"};
	return k >= 0 && k <= K_NONE ? n[k] : "?";
}

struct P
{
	int con = 0;
	int kind = K_NONE;
	uint32_t seq = 0;
	int oseq = -1;
	bool operator==(P const& o) const
	{
		return con == o.con && kind == o.kind && seq == o.seq && oseq == o.oseq;
	}
	bool same_zone(P const& o) const
	{
		return con == o.con && kind == o.kind && seq == o.seq;
	}
};
inline std::string pstr(P const& p)
{
	char b[64];
	if(p.oseq >= 0)
		snprintf(b, sizeof b, "%d:%s[%u].%d", p.con, kname(p.kind), p.seq, p.oseq);
	else
		snprintf(b, sizeof b, "%d:%s[%u]", p.con, kname(p.kind), p.seq);
	return b;
}
// zone index within a side <-> kind/seq
inline P zone_place(int con, int zi)
{
	for(int k = K_MZ; k <= K_SK; k++)
		if(zi < zone_base(k) + zone_count(k))
			return P{con, k, static_cast<uint32_t>(zi - zone_base(k)), -1};
	return {};
}

struct ZoneV
{
	int card = 0;
	std::vector<int> mats;
	bool empty() const { return card == 0 && mats.empty(); }
};

struct ChainV
{
	P card;   // where the activating card was
	int token = 0;
	P trig;   // triggering place
	uint32_t code = 0, index = 0;
};

struct View
{
	std::vector<int> pile[2][N_PILES];
	ZoneV zone[2][N_ZONES];
	uint32_t lp[2] = {0, 0};
	uint32_t turn = 0;
	int turn_con = 0;
	uint32_t phase = 0;
	std::vector<ChainV> chain;
	std::vector<P> blocked;

	ZoneV& z(P const& p) { return zone[p.con][zone_base(p.kind) + p.seq]; }
	ZoneV const& z(P const& p) const
	{
		return zone[p.con][zone_base(p.kind) + p.seq];
	}
	std::vector<int>& pl(P const& p) { return pile[p.con][p.kind]; }
	std::vector<int> const& pl(P const& p) const { return pile[p.con][p.kind]; }
	bool has(P const& p) const
	{
		if(p.con < 0 || p.con > 1 || p.kind < 0 || p.kind >= K_NONE)
			return false;
		if(kpile(p.kind))
			return p.seq < pl(p).size();
		if(p.seq >= static_cast<uint32_t>(zone_count(p.kind)))
			return false;
		auto& zz = z(p);
		if(p.oseq < 0)
			return zz.card != 0;
		return static_cast<size_t>(p.oseq) < zz.mats.size();
	}
	int at(P const& p) const
	{
		if(kpile(p.kind))
			return pl(p)[p.seq];
		return p.oseq < 0 ? z(p).card : z(p).mats[static_cast<size_t>(p.oseq)];
	}
	int& ref(P const& p)
	{
		if(kpile(p.kind))
			return pl(p)[p.seq];
		return p.oseq < 0 ? z(p).card : z(p).mats[static_cast<size_t>(p.oseq)];
	}
	int take(P const& p)
	{
		int t = 0;
		if(kpile(p.kind))
		{
			auto& v = pl(p);
			t = v[p.seq];
			v.erase(v.begin() + p.seq);
		}
		else if(p.oseq < 0)
			std::swap(t, z(p).card);
		else
		{
			auto& v = z(p).mats;
			t = v[static_cast<size_t>(p.oseq)];
			v.erase(v.begin() + p.oseq);
		}
		return t;
	}
	void put(P const& p, int t)
	{
		if(kpile(p.kind))
			pl(p).insert(pl(p).begin() + p.seq, t);
		else if(p.oseq < 0)
			z(p).card = t;
		else
			z(p).mats.insert(z(p).mats.begin() + p.oseq, t);
	}
	void splice(P const& from, uint32_t count, P const& to, bool rev)
	{
		std::vector<int> tmp;
		auto& a = pl(from);
		for(uint32_t i = 0; i < count; i++)
			tmp.push_back(a[from.seq + i]);
		a.erase(a.begin() + from.seq, a.begin() + from.seq + count);
		if(rev)
			for(size_t i = 0, j = tmp.size(); i + 1 < j; i++, j--)
				std::swap(tmp[i], tmp[j - 1]);
		auto& b = pl(to);
		b.insert(b.begin() + to.seq, tmp.begin(), tmp.end());
	}
	// Find a token's place.
	bool find(int tok, P& out) const
	{
		for(int c = 0; c < 2; c++)
		{
			for(int k = 0; k < N_PILES; k++)
				for(size_t i = 0; i < pile[c][k].size(); i++)
					if(pile[c][k][i] == tok)
					{
						out = P{c, k, static_cast<uint32_t>(i), -1};
						return true;
					}
			for(int zi = 0; zi < N_ZONES; zi++)
			{
				auto& zz = zone[c][zi];
				P p = zone_place(c, zi);
				if(zz.card == tok)
				{
					out = p;
					return true;
				}
				for(size_t i = 0; i < zz.mats.size(); i++)
					if(zz.mats[i] == tok)
					{
						out = p;
						out.oseq = static_cast<int>(i);
						return true;
					}
			}
		}
		return false;
	}
	template<typename F>
	void each(F f) const // f(P, token)
	{
		for(int c = 0; c < 2; c++)
		{
			for(int k = 0; k < N_PILES; k++)
				for(size_t i = 0; i < pile[c][k].size(); i++)
					f(P{c, k, static_cast<uint32_t>(i), -1}, pile[c][k][i]);
			for(int zi = 0; zi < N_ZONES; zi++)
			{
				auto& zz = zone[c][zi];
				P p = zone_place(c, zi);
				if(zz.card)
					f(p, zz.card);
				for(size_t i = 0; i < zz.mats.size(); i++)
				{
					P q = p;
					q.oseq = static_cast<int>(i);
					f(q, zz.mats[i]);
				}
			}
		}
	}
	size_t count() const
	{
		size_t n = 0;
		for(int c = 0; c < 2; c++)
		{
			for(auto& p : pile[c])
				n += p.size();
			for(auto& zz : zone[c])
				n += (zz.card != 0) + zz.mats.size();
		}
		return n;
	}
	// Shape hash (no token identities) used to count distinct states.
	uint64_t shape() const
	{
		uint64_t x = 7;
		for(int c = 0; c < 2; c++)
		{
			for(auto& p : pile[c])
				x = mix64(x ^ p.size());
			for(auto& zz : zone[c])
				x = mix64(x * 31 + (zz.card != 0) * 1000 + zz.mats.size());
		}
		x = mix64(x ^ chain.size() * 77 ^ (static_cast<uint64_t>(phase) << 20) ^ turn);
		return x;
	}
};

} // namespace sim
