// S04: the random number generators against their published recurrences.
#include "Vector.h"
#include "MersenneTwister.h"
#include "Random48.h"
#include "RandomForTests.h"
#include "mc.h"
#include <memory>
#include <random>
using mc::check;

// ---- MT19937 as published by Matsumoto and Nishimura (init_genrand, genrand_int32)
struct Mt {
	uint32_t mt[624];
	int i = 624;
	Mt(uint32_t s) { seed(s); }
	void seed(uint32_t s)
	{
		mt[0] = s;
		for (int k = 1; k < 624; ++k)
			mt[k] = 1812433253u * (mt[k - 1] ^ (mt[k - 1] >> 30)) + k;
		i = 624;
	}
	uint32_t next()
	{
		if (i == 624) {
			for (int k = 0; k < 624; ++k) {
				const uint32_t y = (mt[k] & 0x80000000u) | (mt[(k + 1) % 624] & 0x7fffffffu);
				mt[k] = mt[(k + 397) % 624] ^ (y >> 1) ^ (y & 1 ? 0x9908b0dfu : 0);
			}
			i = 0;
		}
		uint32_t y = mt[i++];
		y ^= y >> 11;
		y ^= (y << 7) & 0x9d2c5680u;
		y ^= (y << 15) & 0xefc60000u;
		return y ^ (y >> 18);
	}
};
std::vector<uint32_t> seeds()
{
	std::vector<uint32_t> s { 0u, 1u, 2u, 5489u, 4357u, 19650218u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 123456789u };
	for (int b = 0; b < 32; ++b)
		s.push_back(1u << b);
	return s;
}
void mersenne()
{
	mc::run("MT19937 published values", [] {
		Mt m(5489);
		PsimagLite::MersenneTwister t(5489);
		uint32_t x = 0, y = 0;
		for (int i = 0; i < 10000; ++i) {
			x = m.next();
			y = t.random();
		}
		mc::eq(x, 4123659995u, "model: ten thousandth number");
		mc::eq(y, 4123659995u, "ten thousandth number");
		mc::eq(PsimagLite::MersenneTwister::max(), 4294967295u, "max");
	});
	const int len = mc::thorough() ? 200000 : 2500;
	for (uint32_t s : seeds())
		mc::run("MT19937 seed " + std::to_string(s), [=] {
			Mt m(s);
			std::mt19937 lib(s);
			PsimagLite::MersenneTwister t(s), d(s);
			for (int i = 0; i < len; ++i) {
				const uint32_t w = m.next();
				if (lib() != w)
					mc::fail("model differs from the library");
				if (t.random() != w)
					mc::fail("number " + std::to_string(i));
				const double x = d();
				if (!(x >= 0 && x <= 1) || std::abs(x - w / 4294967295.0) > 1e-15)
					mc::fail("deviate " + std::to_string(i));
			}
			mc::count(len);
			mc::fold(uint64_t(m.next()));
		});
	for (uint32_t s : { 0u, 1u, 5489u, 0xffffffffu })
		for (int n : { 1, 2, 3, 5, 16, 17, 40, 100 }) {
			std::ostringstream o;
			o << "MT19937 seed " << s << " of " << n << " processes";
			mc::run(o.str(), [=] {
				std::vector<uint64_t> first;
				for (int r = 0; r < n; ++r) {
					PsimagLite::MersenneTwister a(s, r, n), b(s, r, n);
					const uint32_t x = a.random(), y = a.random(), z = a.random();
					check(b.random() == x && b.random() == y && b.random() == z, "not reproducible");
					first.push_back(uint64_t(x) << 32 | y);
					for (int q = 0; q < r; ++q)
						check(first[q] != first[r], "processes " + std::to_string(q) + " and " + std::to_string(r) + " get the same numbers");
					// a stream of the generator: some seed, then the recurrence
					std::vector<uint32_t> more;
					for (int i = 0; i < 700; ++i)
						more.push_back(a.random());
					Mt f(s);
					bool found = false;
					for (int i = 0; i < 2 * n + 2 && !found; ++i) {
						Mt c(f.next());
						found = c.next() == x && c.next() == y && c.next() == z;
						for (int k = 0; k < 700 && found; ++k)
							found = c.next() == more[k];
					}
					check(found, "not seeded with a number of the given stream");
				}
			});
		}
	mc::run("MT19937 long stream", [] {
		std::mt19937 lib(20261118);
		PsimagLite::MersenneTwister t(20261118);
		for (int i = 0; i < 2000000; ++i)
			if (t.random() != lib())
				mc::fail("number " + std::to_string(i));
		mc::count(2000000);
		// every seed of a range, drawn after another one was in use for any time up to two refills
		for (uint32_t s = 0; s < 1300; ++s) {
			for (uint32_t k = 0; k < s % 7; ++k)
				t.random();
			t.seed(s);
			std::mt19937 m(s);
			for (uint32_t k = 0; k < s; ++k)
				if (t.random() != m())
					mc::fail("after seeding with " + std::to_string(s) + ": number " + std::to_string(k));
		}
	});
	// all histories of seeding and drawing over two generators
	const int depth = mc::thorough() ? 6 : 5, ops = 7;
	uint64_t total = 1;
	for (int i = 0; i < depth; ++i)
		total *= ops;
	for (uint64_t h = 0; h < total; ++h)
		mc::run("MT19937 history " + std::to_string(h), [=] {
			Mt m[2] = { Mt(7), Mt(8) };
			std::vector<PsimagLite::MersenneTwister> t { PsimagLite::MersenneTwister(7), PsimagLite::MersenneTwister(8) };
			uint64_t x = h;
			for (int i = 0; i < depth; ++i, x /= ops)
				switch (x % ops) {
				case 0:
				case 1:
					mc::eq(t[x % ops].random(), m[x % ops].next(), "draw");
					break;
				case 2:
					m[0].seed(8);
					t[0].seed(8);
					break;
				case 3:
					m[1].seed(0);
					t[1].seed(0);
					break;
				case 4:
					m[0] = m[1];
					t[0] = t[1];
					break;
				case 5:
					for (int k = 0; k < 623; ++k) {
						m[0].next();
						t[0].random();
					}
					break;
				case 6:
					check(std::abs(t[1]() - m[1].next() / 4294967295.0) < 1e-15, "deviate");
					break;
				}
			for (int k = 0; k < 2; ++k)
				for (int i = 0; i < 3; ++i)
					mc::eq(t[k].random(), m[k].next(), "at the end");
		});
}

// ---- drand48 as in POSIX
struct D48 {
	uint64_t x;
	D48(long s)
	    : x((uint64_t(uint32_t(s)) << 16) | 0x330e)
	{
	}
	double next()
	{
		x = (0x5deece66dull * x + 0xb) & 0xffffffffffffull;
		return x / 281474976710656.0;
	}
};
void random48()
{
	for (long s : { 0l, 1l, 2l, 1234l, 9999l, 2147483647l, -1l, -2147483648l, 1234567890l })
		for (unsigned n = 0; n <= 5; ++n)
			for (unsigned r = 0; r <= 6; ++r) {
				std::ostringstream o;
				o << "drand48 seed " << s << " rank " << r << " of " << n;
				mc::run(o.str(), [=] {
					if (r >= n) {
						mc::mustThrow([&] { PsimagLite::Random48<double> g(s, r, n); }, "rank out of range");
						return;
					}
					D48 m(s);
					long own = 0;
					for (unsigned i = 0; i <= r; ++i)
						own = long(10000.0 * m.next());
					for (int again = 0; again < 2; ++again) {
						PsimagLite::Random48<double> g(s, r, n);
						mc::eq(g.seed(), own, "seed of the process");
						D48 w(own);
						for (int i = 0; i < 500; ++i) {
							const double x = i % 2 ? g() : g.random();
							if (x != w.next() || !(x >= 0 && x < 1))
								mc::fail("number " + std::to_string(i));
						}
						for (long q : { 5l, own, 77l, -3l }) {
							g.seed(q);
							mc::eq(g.seed(), q, "seed after reseeding");
							D48 v(q);
							for (int i = 0; i < 20; ++i)
								if (g() != v.next())
									mc::fail("number after reseeding " + std::to_string(i));
						}
					}
				});
			}
	mc::run("drand48 many processes, long streams", [] {
		for (long s : { 0l, 7l, 123456789l }) {
			D48 m(s);
			for (unsigned r = 0; r < 300; ++r) {
				const long own = long(10000.0 * m.next());
				PsimagLite::Random48<double> g(s, r, 300);
				mc::eq(g.seed(), own, "seed of process " + std::to_string(r));
				D48 w(own);
				const int len = r % 100 == 99 ? 300000 : 30;
				for (int i = 0; i < len; ++i)
					if (g() != w.next())
						mc::fail("process " + std::to_string(r) + " number " + std::to_string(i));
			}
		}
	});
	// all histories of seeding and drawing; the stream is the one of the C library, shared
	const int depth = mc::thorough() ? 7 : 5;
	int total = 1;
	for (int i = 0; i < depth; ++i)
		total *= 6;
	for (int h = 0; h < total; ++h)
		mc::run("drand48 history " + std::to_string(h), [=] {
			PsimagLite::Random48<double> g[2] = { PsimagLite::Random48<double>(3), PsimagLite::Random48<double>(4) };
			D48 m(g[1].seed());
			long own[2] = { g[0].seed(), g[1].seed() };
			int x = h;
			for (int i = 0; i < depth; ++i, x /= 6) {
				const int op = x % 6, k = op & 1;
				if (op < 2)
					check(g[k]() == m.next(), "draw");
				else {
					const long s = op < 4 ? own[k] : 17;
					g[k].seed(s);
					m = D48(s);
					own[k] = s;
				}
				check(g[0].seed() == own[0] && g[1].seed() == own[1], "seeds");
			}
			for (int i = 0; i < 3; ++i)
				check(g[i % 2].random() == m.next(), "at the end");
			mc::fold(m.x);
		});
	mc::run("drand48 default process", [] {
		PsimagLite::Random48<double> a(42);
		const double x = a(), y = a();
		PsimagLite::Random48<double> b(42, 0, 1);
		check(b() == x && b() == y, "differs from process 0 of 1");
		PsimagLite::Random48<float> f(42);
		check(f() == float(x), "float");
	});
}

// ---- the minimal standard generator (Park and Miller): x -> 16807 x mod 2^31-1
void minimal()
{
	typedef PsimagLite::RandomForTests<double> R;
	const int64_t p = 2147483647, block = 1 << 22;
	mc::run("minimal standard, Park and Miller's test", [] {
		R r(1);
		double x = 0;
		for (int i = 0; i < 10000; ++i)
			x = r();
		mc::eq((long long)std::llround(x * 2147483647.0), 1043618065ll, "ten thousandth number");
	});
	// one step from every state
	for (int64_t b = -512; b < 512; ++b) {
		if (!mc::thorough() && b % 32 && b != -1 && b != 511 && b != 1)
			continue;
		mc::run("minimal standard, seeds from " + std::to_string(b * block), [=] {
			for (int64_t s = b * block; s < (b + 1) * block; ++s) {
				R r((int)s);
				const double x = r();
				if (s >= 1 && s < p) {
					if (x != double(16807 * s % p) / 2147483647.0)
						mc::fail("step from " + std::to_string(s));
				} else if (!(x > 0 && x < 1))
					mc::fail("out of range from seed " + std::to_string(s));
			}
			mc::count(block);
			mc::fold(uint64_t(b + 600));
		});
	}
	for (int s : { 1, 2, 42, 127773, 127774, 2147483646, 1043618065, 0, -1, -5, -2147483647 - 1, 2147483647 })
		mc::run("minimal standard, sequence of " + std::to_string(s), [=] {
			R r(s), other(s);
			int64_t x = 0;
			for (int i = 0; i < 100000; ++i) {
				const double v = r();
				if (other() != v)
					mc::fail("two generators differ at " + std::to_string(i));
				if (i == 0)
					x = s >= 1 && s < p ? 16807 * int64_t(s) % p : std::llround(v * 2147483647.0);
				else
					x = 16807 * x % p;
				if (v != double(x) / 2147483647.0 || !(v > 0 && v < 1))
					mc::fail("number " + std::to_string(i));
			}
			mc::count(100000);
			mc::fold(uint64_t(x));
		});
}

void mc::explore()
{
	mersenne();
	random48();
	minimal();
}
