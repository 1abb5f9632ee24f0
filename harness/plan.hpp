// Planar geometry of obstacles turned about the vertical: overlaps, lines, walls.
#pragma once
#include "gen.hpp"

namespace
{
	enum Verdict { NO, YES, MAYBE };
	const R SPACING = 2 * PI / 99; // of the 100 outline samples the library takes

	// footprint in plain doubles, for the many evaluations of the overlap test
	struct Foot
	{
		double cx, cy, co, si, lx, ly, px, py;
		bool round;
		explicit Foot(const Ell& e)
		{
			V d = model::rot(e.q, V(1, 0, 0)), l = e.lengths();
			cx = e.c.x; cy = e.c.y; co = d.x; si = d.y; lx = l.x; ly = l.y; px = e.curv.x; py = e.curv.y;
			round = px == 1 && py == 1;
		}
		double level(double x, double y) const
		{
			x -= cx; y -= cy;
			double u = (co * x + si * y) / lx, v = (co * y - si * x) / ly;
			return round ? u * u + v * v : std::pow(std::fabs(u), 2 * px) + std::pow(std::fabs(v), 2 * py);
		}
		void outline(double t, double& x, double& y) const
		{
			double c = std::cos(t), s = std::sin(t), u = lx * c, v = ly * s;
			if(!round) { u = lx * std::copysign(std::pow(std::fabs(c), 1 / px), c); v = ly * std::copysign(std::pow(std::fabs(s), 1 / py), s); }
			x = cx + co * u - si * v;
			y = cy + si * u + co * v;
		}
		double level_of(const Foot& f, double t) const { double x, y; f.outline(t, x, y); return level(x, y); }
		// least level value of f's outline
		double least(const Foot& f, int n) const
		{
			double best = 1e300;
			int at = 0;
			for(int i = 0; i < n; ++i)
			{
				double g = level_of(f, 2 * M_PI * i / n);
				if(g < best) { best = g; at = i; }
			}
			double lo = 2 * M_PI * (at - 1) / n, hi = 2 * M_PI * (at + 1) / n;
			for(int k = 0; k < 40; ++k)
			{
				double m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3;
				if(level_of(f, m1) < level_of(f, m2)) hi = m2;
				else lo = m1;
			}
			return std::min(best, level_of(f, (lo + hi) / 2));
		}
	};
	bool apart(const Foot& a, const Foot& b, double slack, int n = 720)
	{
		return a.level(b.cx, b.cy) > 1 + slack && b.level(a.cx, a.cy) > 1 + slack && a.least(b, n) > 1 + slack && b.least(a, n) > 1 + slack;
	}

	// does some stretch of a's outline of at least the given length (in the outline's parameter) lie in b?
	bool stretch_inside(const Foot& a, const Foot& b, double length)
	{
		const int n = 1080;
		int run = 0, want = (int)std::ceil(length / (2 * M_PI / n));
		for(int i = 0; i < n + want + 1; ++i)
		{
			run = b.level_of(a, 2 * M_PI * i / n) < 1 - 1e-7 ? run + 1 : 0;
			if(run > want) return true;
		}
		return false;
	}

	Verdict overlap(const Ell& x, const Ell& y)
	{
		Foot a(x), b(y);
		if(a.level(b.cx, b.cy) < 1 - 1e-9 || b.level(a.cx, a.cy) < 1 - 1e-9) return YES;
		if(apart(a, b, 1e-7)) return NO;
		return stretch_inside(a, b, 1.5 * (double)SPACING) && stretch_inside(b, a, 1.5 * (double)SPACING) ? YES : MAYBE;
	}
	Verdict any(const std::vector<Verdict>& v)
	{
		bool maybe = false;
		for(auto x : v) { if(x == YES) return YES; if(x == MAYBE) maybe = true; }
		return maybe ? MAYBE : NO;
	}
	const char* text(Verdict v) { return v == YES ? "overlap" : v == NO ? "are disjoint" : "touch"; }

	gen::Opt planar_opt(Src& s)
	{
		gen::Opt o;
		o.flat = s.chance(1, 3);
		o.far = true;
		o.moving = s.chance(1, 4);
		o.z = s.chance(1, 4) ? gen::coord(s) : 0;
		return o;
	}

	// put b next to a: at the distance where they just touch, plus a little
	void next_to(Src& s, const Ell& a, Ell& b)
	{
		V d = gen::direction(s, true), shift;
		R lo = 0, hi = std::max<R>(20, 1.5L * (model::norm(a.lengths()) + model::norm(b.lengths()))), touch;
		auto at = [&](R t) { Ell m = b; m.c = a.c + t * d; m.c.z = b.c.z; return m; };
		for(int k = 0; k < 22; ++k)
		{
			R mid = (lo + hi) / 2;
			if(apart(Foot(a), Foot(at(mid)), 1e-9, 90)) hi = mid;
			else lo = mid;
		}
		touch = (lo + hi) / 2;
		R f = 1 + (s.flag() ? 1 : -1) * std::exp((R)gen::uni(s, -7, 0.5));
		if(f < 0) f = 0;
		shift = b.ref - b.c;
		b.c = dbl(at(touch * f).c);
		b.ref = dbl(b.c + shift);
	}

	// now and then everything is much larger or smaller; returns the factor
	R rescale(Ctx& ctx, std::vector<Ell*> es)
	{
		Src& s = ctx.s;
		if(!s.chance(1, 5)) return 1;
		R f = (double)std::exp((R)gen::uni(s, -4, 5));
		for(Ell* e : es)
		{
			V shift = e->ref - e->c;
			e->c = dbl(f * e->c);
			e->axis = dbl(f * e->axis);
			e->margin = dbl(f * e->margin);
			e->ref = model::norm(shift) == 0 ? e->c : dbl(e->c + f * shift);
		}
		DESC("everything times " << (double)f);
		ctx.label("rescaled");
		return f;
	}
	R rescale(Ctx& ctx, std::vector<Ell>& es)
	{
		std::vector<Ell*> v;
		for(auto& e : es) v.push_back(&e);
		return rescale(ctx, v);
	}

	// discriminant of line against ellipse, relative to the squared size; and the crossing parameters
	struct Cross { R delta; V p1, p2; };
	Cross crossing(const Ell& e, V a, V b)
	{
		V l = e.lengths(), x = e.local(a), d = e.local(b) - x;
		x.z = d.z = 0;
		x.x /= l.x; x.y /= l.y; d.x /= l.x; d.y /= l.y;
		R A = model::dot(d, d), B = model::dot(x, d), C = model::dot(x, x) - 1;
		Cross c;
		// distance of the unit-circle line from the origin
		R h = (x.x * d.y - x.y * d.x) / std::sqrt(A);
		c.delta = 1 - h * h;
		if(c.delta >= 0)
		{
			R q = std::sqrt(std::max<R>(0, B * B - A * C));
			R t1 = (-B - q) / A, t2 = (-B + q) / A;
			c.p1 = a + t1 * (b - a);
			c.p2 = a + t2 * (b - a);
		}
		return c;
	}

	// farthest and nearest crossing of the members seen from a point (0 if none)
	void seen(const std::vector<Ell>& es, V from, R angle, R& far, R& near)
	{
		far = near = 0;
		V d(std::cos(angle), std::sin(angle), 0);
		for(auto& e : es)
		{
			Cross c = crossing(e, from, from + d);
			if(c.delta < 0) continue;
			for(V p : {c.p1, c.p2})
			{
				R t = model::dot(p - from, d);
				if(t <= 0) continue;
				far = std::max(far, t);
				near = near == 0 ? t : std::min(near, t);
			}
		}
	}
	// walls on a circle, wide enough to overlap their neighbours; 'missing' of them left out
	std::vector<Ell> ring(Src& s, bool gap, R& inner, V& centre)
	{
		int n = 6 + s.below(7);
		inner = gen::uni(s, 2.5, 6);
		centre = gen::point(s, true, 4);
		R half = inner * std::tan(PI / n), thick = gen::uni(s, 0.1, 0.4);
		double start = gen::angle(s);
		std::vector<Ell> v;
		int missing = gap ? s.below(n) : -1;
		int more = gap ? s.below(2) : 0;
		std::vector<int> order;
		for(int i = 0; i < n; ++i) order.push_back(i);
		for(int i = n - 1; i > 0; --i) std::swap(order[i], order[s.below(i + 1)]);
		for(int i = 0; i < n; ++i)
		{
			if(i == missing || (more && i == (missing + 1) % n)) continue;
			Ell e;
			e.name = "w" + std::to_string(order[i]);
			R a = start + 2 * PI * i / n;
			e.c = dbl(V(centre.x + inner * std::cos(a), centre.y + inner * std::sin(a), 0));
			e.q = dbl(model::yaw(a + PI / 2));
			e.axis = dbl(V(gap ? half * 0.95L : half * 1.25L, thick, 1));
			e.ref = e.c;
			v.push_back(e);
		}
		return v;
	}
}
