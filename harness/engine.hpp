// Minimal property-based testing engine.
// Every case is a sequence of 32-bit words ("choices"). They come from a seeded PRNG (random
// mode), from a stored list (replay and shrinking) or from a fuzzer's bytes. A property is a
// function of the choices alone, so a list of words reproduces a case exactly and shrinking
// works on the list (delete, zero, lower), whatever the property generates from it.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
	inline uint64_t splitmix(uint64_t& x)
	{
		x += 0x9E3779B97F4A7C15ull;
		uint64_t z = x;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}

	const uint32_t MAX_WORDS = 1u << 16;

	// memory shared between a worker process and its parent
	struct Shared
	{
		volatile uint32_t sub;
		volatile uint64_t index;
		volatile uint32_t nwords;
		volatile uint32_t status; // 0 running, 1 pass, 2 discard, 3 violation, 4 done
		char key[64];
		char msg[4000];
		char desc[12000];
		uint32_t words[MAX_WORDS];
	};

	struct Discard {};

	struct Violation : std::runtime_error
	{
		std::string key;
		explicit Violation(const std::string& m, const std::string& k = "") : std::runtime_error(m), key(k) {}
	};

	class Src
	{
	public:
		Src(uint64_t seed, Shared* sh) : random_(true), rng_(seed), sh_(sh) { if(sh_) sh_->nwords = 0; }
		Src(const uint32_t* w, size_t n, Shared* sh) : random_(false), rng_(0), sh_(sh), in_(w), n_(n) { if(sh_) sh_->nwords = 0; }

		uint32_t word()
		{
			if(used >= MAX_WORDS) throw Discard();
			uint32_t w;
			if(random_) w = (uint32_t)(splitmix(rng_) >> 32);
			else w = (used < n_) ? in_[used] : 0;
			return w;
		}
		void note(uint32_t w)
		{
			if(sh_) { sh_->words[used] = w; sh_->nwords = used + 1; }
			++used;
			hash = (hash ^ w) * 0x100000001B3ull;
		}
		// uniform in [0, n)
		uint32_t below(uint32_t n)
		{
			uint32_t w = word();
			uint32_t v = (n <= 1) ? 0 : (random_ ? (uint32_t)(((uint64_t)w * n) >> 32) : w % n);
			note(v);
			return v;
		}
		// uniform in [0, 1)
		double unit()
		{
			uint32_t w = word();
			note(w);
			return w / 4294967296.0;
		}
		bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
		bool flag() { return below(2) == 1; }

		size_t used = 0;
		uint64_t hash = 0xcbf29ce484222325ull;

	private:
		bool random_;
		uint64_t rng_;
		Shared* sh_;
		const uint32_t* in_ = nullptr;
		size_t n_ = 0;
	};

	struct Ctx
	{
		Src& s;
		bool thorough = false;
		bool verbose = false;
		bool nontrivial = false;
		std::ostringstream desc;
		std::map<std::string, uint64_t>* counts = nullptr;
		std::map<std::string, int> seen;
		explicit Ctx(Src& src) : s(src) {}
		void label(const std::string& l) { seen[l] = 1; }
		void interesting() { nontrivial = true; }
	};

	struct Sub
	{
		std::string id, name, rule;
		uint64_t quick, thorough;
		std::function<void(Ctx&)> fn;
	};

	inline std::vector<Sub>& registry()
	{
		static std::vector<Sub> r;
		return r;
	}

	struct Reg
	{
		Reg(const char* id, const char* name, const char* rule, uint64_t q, uint64_t t, std::function<void(Ctx&)> f)
		{
			registry().push_back(Sub{id, name, rule, q, t, f});
		}
	};
}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROP(id, name, rule for non-triviality, quick cases, thorough cases) { body using ctx }
#define PROP(id, name, rule, q, t)                                                      \
	static void PBT_CAT(prop_, __LINE__)(pbt::Ctx&);                                    \
	static pbt::Reg PBT_CAT(reg_, __LINE__)(id, name, rule, q, t, PBT_CAT(prop_, __LINE__)); \
	static void PBT_CAT(prop_, __LINE__)(pbt::Ctx & ctx)

#define DESC(x) do { if(ctx.verbose) { ctx.desc.precision(17); ctx.desc << x << "; "; } } while(0)
#define FAILS(x) do { std::ostringstream pbt_o_; pbt_o_.precision(17); pbt_o_ << x; throw pbt::Violation(pbt_o_.str()); } while(0)
#define EXPECT(c, x) do { if(!(c)) FAILS("expected " #c ": " << x); } while(0)
