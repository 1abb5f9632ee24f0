// P15, P16, P17, P24: intersections, outlines, crossings, paths and collisions
#include "plan.hpp"
using namespace doa;
using model::dot;
using model::norm;

// ---------------------------------------------------------------- P15
PROP("P15", "two ellipses", "one overlaps the other and neither contains the other's centre, or the gap is less than their size", 18000, 250000)
{
	Src& s = ctx.s;
	gen::Opt o = planar_opt(s);
	Ell a = gen::ellipsoid(s, o, "a"), b = gen::ellipsoid(s, o, s.chance(1, 4) ? "a" : "b");
	bool near = s.chance(3, 4);
	if(near) next_to(s, a, b);
	rescale(ctx, {&a, &b});
	describe(ctx, V(), V(), 0, {a, b});
	Verdict v = overlap(a, b);
	ctx.label(text(v));
	bool centres = plane::level(a, b.c) < 1 || plane::level(b, a.c) < 1;
	if((v == YES && !centres) || (v == NO && near)) ctx.interesting();
	if(v == YES && centres) ctx.label("a centre is contained");
	auto oa = make(a), ob = make(b);
	auto ask = [&]() { oa->is_intersecting(*ob); ob->is_intersecting(*oa); };
	used_before(ctx, *(s.flag() ? oa : ob), ask);
	bool ab = oa->is_intersecting(*ob), ba = ob->is_intersecting(*oa);
	if(v == MAYBE) return;
	EXPECT(ab == (v == YES), "they " << text(v) << " but the first says " << ab);
	EXPECT(ba == (v == YES), "they " << text(v) << " but the second says " << ba);
	EXPECT(oa->is_intersecting(*oa) && oa->is_intersecting(*make(a)), "does not intersect itself");
}

PROP("P15", "lists", "the list holds obstacles that intersect and obstacles that do not", 5000, 60000)
{
	Src& s = ctx.s;
	gen::Opt o = planar_opt(s);
	Ell a = gen::ellipsoid(s, o, "a");
	int n = s.below(6);
	std::vector<Ell> es;
	std::vector<Verdict> vs;
	for(int i = 0; i < n; ++i)
	{
		Ell b = gen::ellipsoid(s, o, "b" + std::to_string(i));
		if(s.flag()) next_to(s, a, b);
		else if(s.flag()) { b.c.x += s.flag() ? 9 : -9; }
		es.push_back(b);
		vs.push_back(overlap(a, b));
	}
	describe(ctx, V(), V(), 0, {a});
	describe(ctx, V(), V(), 0, es);
	Verdict v = any(vs);
	int yes = std::count(vs.begin(), vs.end(), YES), no = std::count(vs.begin(), vs.end(), NO);
	if(yes && no) ctx.interesting();
	ctx.label(n == 0 ? "empty list" : text(v));
	bool got = make(a)->is_intersecting(make(es));
	if(v != MAYBE) EXPECT(got == (v == YES), "says " << got << " for a list where it should be " << text(v));
	auto oa = make(a);
	bool disjunction = false;
	auto list = make(es);
	for(auto& x : list) disjunction = disjunction || oa->is_intersecting(*x);
	EXPECT(got == disjunction, "for the list " << got << ", for its elements " << disjunction);
}

PROP("P15", "aggregates", "the answer is not decided by the first member", 2400, 30000)
{
	Src& s = ctx.s;
	gen::Opt o = planar_opt(s);
	o.curved = s.chance(1, 3);
	std::vector<Ell> m[2];
	int n0 = 1 + s.below(3), n1 = 1 + s.below(3);
	bool common = s.chance(1, 3); // names used by both
	for(int k = 0; k < 2; ++k)
		for(int i = 0; i < (k ? n1 : n0); ++i)
		{
			Ell e = gen::ellipsoid(s, o, std::string(k && !common ? "q" : "p") + std::to_string(i));
			if(k == 0 && i) next_to(s, m[0][s.below(m[0].size())], e);
			if(k == 1 && s.flag()) next_to(s, m[0].back(), e);
			else if(k == 1 && s.flag()) e.c.x += 12;
			m[k].push_back(e);
		}
	{
		std::vector<Ell*> both;
		for(auto& x : m) for(auto& e : x) both.push_back(&e);
		rescale(ctx, both);
	}
	describe(ctx, V(), V(), 0, m[0]);
	DESC("|");
	describe(ctx, V(), V(), 0, m[1]);
	std::vector<Verdict> all, single;
	for(auto& x : m[0]) for(auto& y : m[1]) all.push_back(overlap(x, y));
	for(auto& x : m[0]) single.push_back(overlap(x, m[1][0]));
	Verdict v = any(all), w = any(single);
	if((all[0] != YES && v == YES) || v == NO) ctx.interesting();
	ctx.label(text(v));
	Aggregate p(make(m[0])), q(make(m[1]));
	if(common) { p.set_name("p0"); q.set_name("p0"); }
	auto e = make(m[1][0]);
	if(v != MAYBE)
	{
		EXPECT(p.is_intersecting(q) == (v == YES), "aggregates that " << text(v) << ": says " << p.is_intersecting(q));
		EXPECT(q.is_intersecting(p) == (v == YES), "aggregates that " << text(v) << ": the second says " << q.is_intersecting(p));
	}
	if(w != MAYBE)
	{
		EXPECT(p.is_intersecting(*e) == (w == YES), "an aggregate and an ellipsoid that " << text(w) << ": says " << p.is_intersecting(*e));
		EXPECT(e->is_intersecting(p) == (w == YES), "an ellipsoid and an aggregate that " << text(w) << ": says " << e->is_intersecting(p));
	}
}

// ---------------------------------------------------------------- P16
PROP("P16", "outline", "at least 3 points, turned, with a margin or a curvature factor", 100000, 750000)
{
	Src& s = ctx.s;
	gen::Opt o = planar_opt(s);
	o.sharp = true;
	Ell e = gen::ellipsoid(s, o, "obs");
	int n = s.flag() ? 2 + s.below(12) : s.chance(1, 50) ? 300 + s.below(3000) : 2 + s.below(300);
	bool with = s.flag();
	describe(ctx, V(), V(), 0, {e});
	DESC(n << " points, margin " << with);
	if(!with && (e.axis.x < 1e-3L || e.axis.y < 1e-3L)) throw pbt::Discard(); // no outline
	if(n > 2 && std::fabs(e.q.z) > 1e-6L && (with || norm(e.curv - V(1, 1, 1)) > 0)) ctx.interesting();
	ctx.label(norm(e.curv - V(1, 1, 1)) > 0 ? "curved" : "elliptic");
	auto ob = make(e);
	used_before(ctx, *ob, [&]() { ob->sample_from_parameterization(n, with); });
	Eigen::MatrixXd m = ob->sample_from_parameterization(n, with);
	EXPECT(m.rows() == 3 && m.cols() == n, "size " << m.rows() << " x " << m.cols());
	Ell f = e;
	if(!with) f.margin = V();
	std::vector<R> par;
	for(int i = 0; i < n; ++i)
	{
		V p = M(Eigen::Vector3d(m.col(i)));
		R g = plane::level(f, p);
		EXPECT(std::fabs(g - 1) < 1e-8L, "point " << i << " " << p << " is at level value " << (double)g);
		EXPECT(std::fabs(p.z - e.c.z) < 1e-9L, "point " << i << " " << p << " is not at the obstacle's height");
		V y = f.local(p), l = f.lengths();
		// parameter of the outline point
		R cx = std::pow(std::fabs(y.x / l.x), f.curv.x), sy = std::pow(std::fabs(y.y / l.y), f.curv.y);
		par.push_back(std::atan2(y.y < 0 ? -sy : sy, y.x < 0 ? -cx : cx));
	}
	V first = M(Eigen::Vector3d(m.col(0))), last = M(Eigen::Vector3d(m.col(n - 1)));
	EXPECT(close(first, last, 1e-9L * (1 + norm(first))) || norm(e.curv - V(1, 1, 1)) > 0, "from " << first << " to " << last << ": not closed");
	R step = 2 * PI / (n - 1);
	int way = 0;
	for(int i = 1; i < n; ++i)
	{
		R d = par[i] - par[i - 1];
		auto off = [&](R want) { R x = std::fmod(std::fabs(d - want), 2 * PI); return std::min(x, 2 * PI - x); };
		// tiny parameters are lost in a root: sin(2 pi) is 2e-16, its cube root 6e-6
		R tol = 1e-7L;
		bool plus = off(step) < tol, minus = off(-step) < tol;
		EXPECT(plus || minus, "from point " << i - 1 << " to " << i << " the parameter goes by " << (double)d << " instead of " << (double)step);
		if(plus && minus) continue;
		EXPECT(way == 0 || way == (plus ? 1 : -1), "turns back at point " << i);
		way = plus ? 1 : -1;
	}
}

static R surface_area(R a, R b, R c)
{
	// integral over the unit sphere of |abc| sqrt(x^2/a^2 + y^2/b^2 + z^2/c^2)
	const int n = 60, m = 120;
	R sum = 0;
	for(int i = 0; i < n; ++i)
	{
		// midpoint in z gives equal areas; higher accuracy by Gauss is not needed
		R z = -1 + (2 * i + 1) / (R)n, r = std::sqrt(1 - z * z);
		for(int j = 0; j < m; ++j)
		{
			R t = 2 * PI * (j + 0.5L) / m, x = r * std::cos(t), y = r * std::sin(t);
			sum += std::sqrt(x * x / (a * a) + y * y / (b * b) + z * z / (c * c));
		}
	}
	return a * b * c * sum * 4 * PI / (n * m);
}

PROP("P16", "area", "three different lengths", 15000, 100000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.planar = false;
	o.curved = false;
	Ell e = gen::ellipsoid(s, o, "obs");
	bool with = s.flag();
	describe(ctx, V(), V(), 0, {e});
	auto ob = make(e);
	V l = with ? e.lengths() : e.axis;
	if(std::fabs(l.x - l.y) > 0.05L && std::fabs(l.y - l.z) > 0.05L && std::fabs(l.x - l.z) > 0.05L) ctx.interesting();
	used_before(ctx, *ob, [&]() { ob->area(with); ob->area(!with); });
	R want = surface_area(l.x, l.y, l.z), got = ob->area(with);
	EXPECT(std::fabs(got - want) < 0.02L * want, "area " << (double)got << " but the surface measures " << (double)want);
	// grows
	Ell f = e;
	int k = s.below(3);
	f.axis[k] += 0.01 + s.unit();
	f.axis = dbl(f.axis);
	EXPECT(make(f)->area(with) > got, "does not grow with axis " << k);
	Ell h = e;
	h.margin[k] += 0.01 + s.unit();
	h.margin = dbl(h.margin);
	R a1 = make(h)->area(true), a0 = ob->area(true);
	EXPECT(a1 > a0, "does not grow with margin " << k);
	EXPECT(make(h)->area(false) == ob->area(false), "the area without margin depends on the margin");
}

// ---------------------------------------------------------------- P17
namespace
{
	struct Line { V a, b; bool far; };
	// a line in the obstacle's plane: through a chosen offset from the centre, often near tangency
	Line line(Src& s, const Ell& e)
	{
		Line r;
		r.far = false;
		R t;
		switch(s.below(3))
		{
		case 0: t = std::floor(s.unit() * 4) * PI / 2; break; // along an axis of the obstacle
		default: t = gen::angle(s);
		}
		V d(std::cos(t), std::sin(t), 0), n(-d.y, d.x, 0), l = e.lengths();
		// distance of the tangents with that direction
		R h = std::hypot(l.x * n.x, l.y * n.y);
		R off;
		switch(s.below(4))
		{
		case 0: off = 0; break;
		case 1: off = gen::uni(s, -2, 2); break;
		case 2: off = (s.flag() ? 1 : -1) * (1 - std::exp((R)gen::uni(s, -12, 0))); break;
		default: off = (s.flag() ? 1 : -1) * (1 + std::exp((R)gen::uni(s, -12, 1)));
		}
		R u = gen::coord(s), w = u + (s.flag() ? 1 : -1) * (0.05L + gen::uni(s, 0, 4));
		r.a = dbl(e.world(off * h * n + u * d));
		r.b = dbl(e.world(off * h * n + w * d));
		r.a.z = r.b.z = e.c.z;
		return r;
	}
}

PROP("P17", "crossings", "the line passes within 20 percent of the outline or crosses it", 600000, 4500000)
{
	Src& s = ctx.s;
	gen::Opt o = planar_opt(s);
	o.curved = s.chance(1, 4);
	Ell e = gen::ellipsoid(s, o, "obs");
	Line ln = line(s, e);
	describe(ctx, ln.a, ln.b - ln.a, 0, {e});
	Cross c = crossing(e, ln.a, ln.b);
	if(c.delta > -0.5L) ctx.interesting();
	if(std::fabs(c.delta) < 1e-9L) throw pbt::Discard();
	auto ob = make(e);
	used_before(ctx, *ob, [&]() { ob->compute_interesection_points(E(ln.a), E(ln.b)); });
	auto r = ob->compute_interesection_points(E(ln.a), E(ln.b));
	ctx.label(c.delta > 0 ? "crosses" : "misses");
	EXPECT(r.first == (c.delta > 0), "reports " << r.first << " for a line that " << (c.delta > 0 ? "crosses" : "misses") << " (" << (double)c.delta << ")");
	if(!r.first) return;
	V p = M(Eigen::Vector3d(r.second.first)), q = M(Eigen::Vector3d(r.second.second));
	R size = 1 + norm(e.lengths()) + norm(ln.a - e.c), tol = 1e-10L * size / std::sqrt(c.delta) + 1e-11L * size * size / norm(ln.b - ln.a) / std::sqrt(c.delta);
	bool same = close(p, c.p1, tol) && close(q, c.p2, tol), swapped = close(p, c.p2, tol) && close(q, c.p1, tol);
	EXPECT(same || swapped, "returns " << p << " and " << q << ", crossings are " << c.p1 << " and " << c.p2);
	auto r2 = ob->compute_interesection_points(E(ln.b), E(ln.a));
	EXPECT(r2.first == r.first, "the answer depends on the direction of travel");
}

PROP("P17", "shifted reference point", "the line of motion crosses the obstacle", 375000, 3000000)
{
	Src& s = ctx.s;
	gen::Opt o = planar_opt(s);
	Ell e = gen::ellipsoid(s, o, "obs");
	Line ln = line(s, e);
	V v = ln.b - ln.a;
	if(s.chance(1, 4)) v = (R)std::exp(gen::uni(s, -8, 5)) * v; // creeping or racing along the same line
	if(s.chance(1, 10)) v = V();
	bool apart = s.chance(1, 3); // above or below the obstacle, climbing or diving: as seen from above
	if(apart)
	{
		if(s.flag()) ln.a.z += gen::uni(s, -5, 5);
		if(s.flag()) v.z = norm(v) > 0 && s.flag() ? norm(v) * std::exp((R)gen::uni(s, -3, 3)) * (s.flag() ? 1 : -1) : (R)gen::uni(s, -3, 3);
		ctx.label("out of the obstacle's plane");
	}
	ln.a = dbl(ln.a);
	v = dbl(v);
	V flat(v.x, v.y, 0);
	describe(ctx, ln.a, v, 0, {e});
	auto ob = make(e);
	double m = s.flag() ? 0 : gen::margin(s);
	Agent a = agent_at(ln.a, v, m);
	auto ask = [&]() { Eigen::Vector3d r0 = ob->get_reference_position(); ob->shift_reference_point(a); ob->set_reference_position(r0); };
	if(s.flag()) used_before(ctx, *ob, ask);
	else used_before(ctx, a, ask);
	ob->shift_reference_point(a);
	V ref = M(ob->get_reference_position());
	EXPECT(close(M(ob->get_position()), e.c, 0) && norm(M(ob->get_linear_velocity()) - e.v) == 0, "something else was changed");
	if(norm(flat) == 0) { EXPECT(norm(ref - e.ref) == 0, "moved to " << ref << " for an agent at rest or moving vertically"); ctx.label("at rest"); return; }
	V above(ln.a.x, ln.a.y, e.c.z);
	Cross c = crossing(e, above, above + flat);
	if(std::fabs(c.delta) < 1e-9L) throw pbt::Discard();
	if(c.delta < 0) { EXPECT(norm(ref - e.ref) == 0, "moved to " << ref << " although the line of motion misses"); ctx.label("misses"); return; }
	ctx.interesting();
	ctx.label("crosses");
	V mid = 0.5L * (c.p1 + c.p2);
	R size = 1 + norm(e.lengths()) + norm(ln.a - e.c);
	R tol = 1e-9L * size * (1 + (size + norm(v)) / norm(flat)) / std::sqrt(c.delta);
	EXPECT(close(ref, mid, tol), "moved to " << ref << ", middle of the chord is " << mid);
	// the middle of a chord is inside
	if(e.curv.x >= 1 && e.curv.y >= 1 && c.delta > 1e-6L) EXPECT(ob->point_is_inside(E(ref)), "the reference point " << ref << " is outside");
}

PROP("P17", "touching lines", "the line is a tangent", 20000, 150000)
{
	// halves and powers of two only, along an axis of the obstacle: no rounding on the way
	Src& s = ctx.s;
	Ell e;
	e.name = "obs";
	auto half = [&](int r) { return (R)0.5L * ((int)s.below(2 * r + 1) - r); };
	static const double l[] = {1, 2, 0.5, 4, 0.25};
	e.c = V(half(10), half(10), s.flag() ? 0 : half(6));
	for(int k = 0; k < 3; ++k)
	{
		R t = l[s.below(5)];
		e.margin[k] = s.flag() ? 0 : s.flag() ? t / 2 : t / 4;
		e.axis[k] = t - e.margin[k];
	}
	e.ref = e.c;
	int k = s.below(2), out = (int)s.below(5) - 2; // tangent on either side, through the centre, or beyond
	V n, d;
	n[k] = 1;
	d[1 - k] = 1;
	V lens = e.lengths();
	V a = e.c + (out == 0 ? (R)0 : (out < 0 ? -1 : 1) * (std::abs(out) == 1 ? lens[k] : lens[k] + 0.5L)) * n + half(8) * d;
	V b = a + (R)l[s.below(5)] * (s.flag() ? 1 : -1) * d;
	describe(ctx, a, b - a, 0, {e});
	if(std::abs(out) == 1) ctx.interesting();
	auto ob = make(e);
	auto r = ob->compute_interesection_points(E(a), E(b));
	EXPECT(r.first == (std::abs(out) < 2), "reports " << r.first << " for a line that " << (out == 0 ? "goes through the centre" : std::abs(out) == 1 ? "touches the outline" : "passes by"));
	if(!r.first) return;
	V p = M(Eigen::Vector3d(r.second.first)), q = M(Eigen::Vector3d(r.second.second));
	V foot = a + dot(e.c - a, d) * d;
	V p1 = foot, p2 = foot;
	if(out == 0) { p1 = foot + lens[1 - k] * d; p2 = foot - lens[1 - k] * d; }
	EXPECT((close(p, p1, 1e-7L) && close(q, p2, 1e-7L)) || (close(p, p2, 1e-7L) && close(q, p1, 1e-7L)), "returns " << p << " and " << q << ", crossings are " << p1 << " and " << p2);
	ob->shift_reference_point(agent_at(a, b - a, 0));
	EXPECT(close(M(ob->get_reference_position()), foot, 1e-7L), "reference point moved to " << M(ob->get_reference_position()) << ", middle of the crossings is " << foot);
	ctx.label(out == 0 ? "through the centre" : "touches");
}

// ---------------------------------------------------------------- P24
PROP("P24", "a ring of walls", "agent and target on different sides", 500, 9000)
{
	Src& s = ctx.s;
	bool gap = s.flag();
	R inner;
	V centre;
	std::vector<Ell> es = ring(s, gap, inner, centre);
	describe(ctx, V(), V(), 0, es);
	auto list = make(es);
	auto ag = std::make_shared<Aggregate>(list);
	ObsList l;
	// an ellipsoid is closed: it blocks between its inside and outside
	Ell other;
	bool with_other = s.flag();
	if(with_other)
	{
		other = gen::ellipsoid(s, gen::Opt(), "other");
		if(s.flag()) { other.c = dbl(centre + (R)gen::uni(s, 0, 0.4) * inner * gen::direction(s, true)); other.ref = other.c; }
		l.push_back(make(other));
		describe(ctx, V(), V(), 0, {other});
	}
	auto parted = [&](V a, V t) {
		if(!with_other) return false;
		R ga = plane::level(other, a), gt = plane::level(other, t);
		if(std::fabs(ga - 1) < 1e-9L || std::fabs(gt - 1) < 1e-9L) throw pbt::Discard();
		return (ga < 1) != (gt < 1);
	};
	if(s.flag()) l.push_back(ag);
	else l.push_front(ag);
	V ref;
	for(auto& e : es) ref = ref + (1 / (R)es.size()) * e.c;
	// is it complete, seen from its reference point?
	R least = 1e30L;
	int hidden = 0, longest = 0;
	for(int i = 0; i < 2 * 1440; ++i)
	{
		R f, nr;
		seen(es, ref, 2 * PI * i / 1440, f, nr);
		least = std::min(least, std::max<R>(f, 0.5L));
		hidden = f == 0 ? hidden + 1 : 0;
		longest = std::max(longest, hidden);
	}
	bool closed = least > 0.7L, open = longest > 5 * 1440 / 500;
	if(closed == open) throw pbt::Discard();
	EXPECT(ag->is_closed() == closed, "a ring " << (closed ? "without a gap" : "with a gap") << " says closed: " << ag->is_closed());
	for(int k = 0; k < 10; ++k)
	{
		auto place = [&](bool in) { V p = in ? centre + (R)gen::uni(s, 0, 0.4) * inner * gen::direction(s, true) : centre + (R)gen::uni(s, 2.2, 4) * inner * gen::direction(s, true); return dbl(p); };
		bool ai = s.flag(), ti = s.flag();
		V a = place(ai), t = place(ti);
		if(with_other && s.chance(1, 3))
		{
			// close to the other obstacle, or just across its outline from each other
			V d = gen::direction(s, true), local = model::rot(model::conj(other.q), d);
			R edge = 1 / std::sqrt(local.x * local.x / (other.lengths().x * other.lengths().x) + local.y * local.y / (other.lengths().y * other.lengths().y));
			auto just = [&]() { return (R)0.02L * std::exp((R)gen::uni(s, -10, 0)) * (R)(s.flag() ? 1 : -1); };
			V near[2] = {dbl(other.c + edge * (1 + (s.flag() ? just() : (R)0.2L * (R)gen::uni(s, -1, 1))) * d), dbl(other.c + edge * (1 + just()) * d)};
			bool put = true;
			for(V& x : near)
			{
				R r = norm(x - centre) / inner;
				if(r > 0.4L && r < 2.2L) put = false;
			}
			if(put)
			{
				a = near[0];
				ai = norm(a - centre) < inner;
				if(s.flag()) { t = near[1]; ti = norm(t - centre) < inner; }
				ctx.label("near the other obstacle");
			}
		}
		if(gap)
		{
			// with a gap the answer does not depend on where they are
			EXPECT(agent_at(a, V(1, 0, 0)).exist_path(E(t), l) == !parted(a, t), "no path from " << a << " to " << t << " past a ring with a gap");
			if(ai != ti) ctx.interesting();
			ctx.label("gap");
			continue;
		}
		if(ai != ti) ctx.interesting();
		ctx.label(ai == ti ? "same side" : "different sides");
		bool got = agent_at(a, V(1, 0, 0)).exist_path(E(t), l);
		EXPECT(got == (ai == ti && !parted(a, t)), "path from " << a << (ai ? " (inside)" : " (outside)") << " to " << t << (ti ? " (inside)" : " (outside)") << ": " << got);
	}
}

PROP("P24", "several rings", "the answers of two closed rings differ", 300, 5000)
{
	Src& s = ctx.s;
	ObsList l;
	int n = 1 + s.below(3);
	std::vector<V> centres;
	std::vector<R> radii;
	std::vector<bool> closed;
	for(int k = 0; k < n; ++k)
	{
		R inner;
		V centre;
		bool gap = s.chance(1, 3);
		auto es = ring(s, gap, inner, centre);
		V shift(30 * k, 0, 0);
		if(s.chance(1, 3) && k) shift = centres[0] - centre; // one inside the other
		for(auto& e : es) { e.c = dbl(e.c + shift); e.ref = e.c; e.name += (char)('a' + k); }
		describe(ctx, V(), V(), 0, es);
		centres.push_back(centre + shift);
		radii.push_back(inner);
		auto ag = std::make_shared<Aggregate>(make(es));
		closed.push_back(ag->is_closed());
		l.push_back(ag);
	}
	for(int k = 0; k < 10; ++k)
	{
		V p[2];
		for(V& x : p)
		{
			int r = s.below(n + 1);
			x = r == n ? V(-20, (R)gen::uni(s, -20, 20), 0) : dbl(centres[r] + (R)gen::uni(s, 0, 0.3) * radii[r] * gen::direction(s, true));
		}
		bool path = true;
		int different = 0;
		for(int r = 0; r < n; ++r)
		{
			bool in[2];
			for(int i = 0; i < 2; ++i)
			{
				R d = norm(p[i] - centres[r]);
				if(d > 0.55L * radii[r] && d < 1.6L * radii[r]) throw pbt::Discard();
				in[i] = d < radii[r];
			}
			if(closed[r] && in[0] != in[1]) { path = false; ++different; }
		}
		if(n > 1 && different) ctx.interesting();
		ctx.label(path ? "path" : "no path");
		bool got = agent_at(p[0], V(1, 0, 0)).exist_path(E(p[1]), l), back = agent_at(p[1], V(1, 0, 0)).exist_path(E(p[0]), l);
		EXPECT(got == path, "path from " << p[0] << " to " << p[1] << ": " << got);
		EXPECT(back == path, "path back from " << p[1] << " to " << p[0] << ": " << back);
	}
}

PROP("P24", "collision", "the disc overlaps the obstacle without containing its centre, or is close to it", 7000, 120000)
{
	Src& s = ctx.s;
	gen::Opt o = planar_opt(s);
	double m = s.chance(1, 3) ? 0.1 * s.unit() : s.chance(1, 4) ? (s.chance(1, 4) ? std::exp(gen::uni(s, 1, 5)) : gen::uni(s, 1, 8)) : gen::margin(s);
	Ell disc;
	disc.name = "disc";
	disc.c = gen::point(s, true);
	disc.c.z = o.z;
	R r = std::max(0.1, m);
	disc.axis = V(r, r, r);
	bool aggregate = s.chance(1, 6);
	int n = aggregate ? 1 + s.below(3) : 1;
	std::vector<Ell> es;
	std::vector<Verdict> vs;
	for(int i = 0; i < n; ++i)
	{
		Ell e = gen::ellipsoid(s, o, "m" + std::to_string(i));
		if(s.chance(3, 4)) next_to(s, disc, e);
		es.push_back(e);
		vs.push_back(overlap(disc, e));
	}
	describe(ctx, disc.c, V(), m, es);
	Verdict v = any(vs);
	ctx.label(text(v));
	if(aggregate) ctx.label("aggregate");
	if(v == MAYBE) return;
	Agent a = agent_at(disc.c, gen::velocity(s, true), m);
	if(s.flag()) a.set_orientation(E(gen::orientation(s, false)));
	ctx.interesting();
	auto single = make(es[0]);
	if(!aggregate)
	{
		auto ask = [&]() { a.in_obstacle(*single); };
		if(s.flag()) used_before(ctx, *single, ask);
		else used_before(ctx, a, ask);
	}
	bool got = aggregate ? a.in_obstacle(Aggregate(make(es))) : a.in_obstacle(*single);
	EXPECT(got == (v == YES), "disc of radius " << (double)r << " and obstacle " << text(v) << ", reported " << got);
}
