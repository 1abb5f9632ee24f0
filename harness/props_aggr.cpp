// P18-P21: grouping, hulls, history independence, avoidance of aggregates
#include "plan.hpp"
#include <set>
using namespace doa;
using model::dot;
using model::norm;
using gen::uni;

// ellipses of which some overlap, and the pairwise verdicts
static std::vector<Ell> crowd(Src& s, int n, bool curved, bool touching = true, double spread = 0)
{
	gen::Opt o;
	o.curved = curved;
	o.spread = spread > 0 ? spread : 2 + 1.5 * n;
	auto names = gen::names(s, n);
	std::vector<Ell> v;
	for(int i = 0; i < n; ++i)
	{
		Ell e = gen::ellipsoid(s, o, names[i]);
		if(i && touching && s.flag()) next_to(s, v[s.below(i)], e);
		v.push_back(e);
	}
	return v;
}
static int root(std::vector<int>& up, int i) { while(up[i] != i) i = up[i]; return i; }
static bool groups(const std::vector<Ell>& es, std::vector<int>& up)
{
	int n = es.size();
	up.resize(n);
	for(int i = 0; i < n; ++i) up[i] = i;
	std::vector<std::pair<int, int>> unsure;
	for(int i = 0; i < n; ++i)
		for(int j = 0; j < i; ++j)
		{
			Verdict v = overlap(es[i], es[j]);
			if(v == YES) up[root(up, i)] = root(up, j);
			if(v == MAYBE) unsure.push_back({i, j});
		}
	for(auto& p : unsure) if(root(up, p.first) != root(up, p.second)) return false;
	for(int i = 0; i < n; ++i) up[i] = root(up, i);
	return true;
}
static void permute(Src& s, std::vector<int>& p) { for(int i = (int)p.size() - 1; i > 0; --i) std::swap(p[i], p[s.below(i + 1)]); }

// ---------------------------------------------------------------- P18
static void check_groups(const std::vector<Ell>& es, const ObsList& given, const ObsList& got, std::vector<int> up, R scale = 1)
{
	R tol = 1e-10L * std::max<R>(1, scale);
	int n = es.size();
	std::map<int, std::vector<int>> g;
	for(int i = 0; i < n; ++i) g[up[i]].push_back(i);
	std::set<Obs> seen;
	size_t aggregates = 0, singles = 0;
	for(auto& x : g) (x.second.size() > 1 ? aggregates : singles)++;
	EXPECT(got.size() == aggregates + singles, got.size() << " obstacles after grouping, expected " << aggregates << " aggregates and " << singles << " single ones");
	for(auto& o : got)
	{
		if(o->get_type() != "Aggregate")
		{
			int at = -1;
			for(int i = 0; i < n; ++i) if(given[i] == o) at = i;
			EXPECT(at >= 0, "'" << o->get_name() << "' is not one of the given obstacles");
			EXPECT(g[up[at]].size() == 1, "'" << o->get_name() << "' is alone but intersects others");
			EXPECT(seen.insert(o).second, "'" << o->get_name() << "' appears twice");
			EXPECT(close(M(o->get_position()), es[at].c, 0) && close(M(o->get_reference_position()), es[at].ref, 0), "the single obstacle '" << o->get_name() << "' was changed");
			continue;
		}
		auto& members = static_cast<const Aggregate&>(*o).get_primitives();
		EXPECT(!members.empty(), "an empty aggregate");
		std::set<int> idx;
		V mean;
		std::vector<std::string> names;
		for(auto& m : members)
		{
			int at = -1;
			for(int i = 0; i < n; ++i) if(given[i] == m) at = i;
			EXPECT(at >= 0, "member '" << m->get_name() << "' is not one of the given obstacles");
			EXPECT(seen.insert(m).second, "'" << m->get_name() << "' appears twice");
			idx.insert(at);
			mean = mean + (1 / (R)members.size()) * es[at].c;
			names.push_back(m->get_name());
		}
		std::vector<int> want = g[up[*idx.begin()]];
		EXPECT(idx == std::set<int>(want.begin(), want.end()), "aggregate '" << o->get_name() << "' has " << idx.size() << " members, its group has " << want.size());
		std::string name = "aggregate";
		std::sort(names.begin(), names.end());
		for(auto& x : names) name += "_" + x;
		EXPECT(o->get_name() == name, "named '" << o->get_name() << "', expected '" << name << "'");
		EXPECT(close(M(o->get_position()), mean, tol), "position of '" << name << "' is " << M(o->get_position()) << ", expected " << mean);
		EXPECT(close(M(o->get_reference_position()), mean, tol), "reference point of '" << name << "' is " << M(o->get_reference_position()) << ", expected " << mean);
		for(auto& m : members) EXPECT(close(M(m->get_reference_position()), mean, tol), "reference point of member '" << m->get_name() << "' is " << M(m->get_reference_position()) << ", expected " << mean);
		for(int i : idx) EXPECT(close(M(given[i]->get_position()), es[i].c, 0), "member moved");
	}
	EXPECT(seen.size() == (size_t)n, seen.size() << " of " << n << " obstacles appear");
}

PROP("P18", "groups", "at least two groups, one of at least three obstacles", 3000, 40000)
{
	Src& s = ctx.s;
	bool many = s.chance(1, 12);
	int n = many ? 9 + s.below(16) : s.below(9);
	std::vector<Ell> es = crowd(s, n, !many && s.chance(1, 3));
	R scale = rescale(ctx, es);
	describe(ctx, V(), V(), 0, es);
	std::vector<int> up;
	if(!groups(es, up)) throw pbt::Discard();
	std::map<int, int> size;
	for(int x : up) size[x]++;
	int big = 0;
	for(auto& x : size) big = std::max(big, x.second);
	if(size.size() > 1 && big > 2) ctx.interesting();
	ctx.label("largest group of " + std::to_string(big));
	std::vector<int> order;
	for(int i = 0; i < n; ++i) order.push_back(i);
	permute(s, order);
	std::vector<Ell> given;
	std::vector<int> gup;
	for(int i : order) { given.push_back(es[i]); gup.push_back(up[i]); }
	ObsList l = make(given);
	if(s.flag())
	{
		DESC("direct, order");
		for(int i : order) DESC(i);
		check_groups(given, l, Aggregation::aggregate_obstacles(l), gup, scale);
	}
	else
	{
		DESC("through an environment");
		Environment env(true);
		for(auto& o : l) env.add_obstacle(o);
		env.update();
		check_groups(given, l, env.get_obstacle_list(), gup, scale);
	}
}

PROP("P18", "chains in every order", "three or more in the chain", 1400, 20000)
{
	// a chain of discs: each meets only its neighbours; given in a random order
	Src& s = ctx.s;
	int n = s.chance(1, 4) ? 9 + s.below(20) : 2 + s.below(7), cut = s.below(n + 2), gaps = s.chance(1, 3) ? 2 + s.below(4) : 0;
	auto names = gen::names(s, n);
	std::vector<Ell> es;
	std::vector<int> piece;
	R x = 0;
	double z = s.flag() ? gen::coord(s) : 0;
	for(int i = 0; i < n; ++i)
	{
		Ell e;
		e.name = names[i];
		e.c = dbl(V(x, 0.2L * (R)gen::uni(s, -1, 1), z));
		e.ref = e.c;
		e.axis = V(1, 1, 1);
		es.push_back(e);
		piece.push_back(i && es[i].c.x - es[i - 1].c.x > 2.5L ? i : i ? piece.back() : 0);
		x += i + 1 == cut || (gaps && s.below(gaps) == 0) ? 4 : 1.5L;
	}
	std::vector<int> order;
	for(int i = 0; i < n; ++i) order.push_back(i);
	permute(s, order);
	std::vector<Ell> given;
	std::vector<int> up;
	for(int i : order) { given.push_back(es[i]); up.push_back(piece[i]); }
	std::vector<int> first(n, -1);
	for(int i = 0; i < n; ++i) { if(first[up[i]] < 0) first[up[i]] = i; }
	for(int& u : up) u = first[u];
	R scale = rescale(ctx, given);
	describe(ctx, V(), V(), 0, given);
	if(n > 2) ctx.interesting();
	ObsList l = make(given);
	check_groups(given, l, Aggregation::aggregate_obstacles(l), up, scale);
}

PROP("P18", "aggregates built by hand", "at least two members, not in alphabetical order", 1000, 15000)
{
	Src& s = ctx.s;
	int n = 1 + s.below(6);
	std::vector<Ell> es = crowd(s, n, false, false);
	describe(ctx, V(), V(), 0, es);
	ObsList l = make(es);
	bool sorted = true;
	for(int i = 1; i < n; ++i) if(es[i].name < es[i - 1].name) sorted = false;
	if(!sorted) ctx.interesting();
	std::vector<int> up(n, 0);
	if(n == 1) return;
	auto whole = std::make_shared<Aggregate>(l);
	check_groups(es, l, ObsList{whole}, up);
	ObsList l2 = make(es);
	auto grown = std::make_shared<Aggregate>();
	for(auto& o : l2) grown->add_primitive(o, s.chance(1, 4));
	grown->update_hull();
	check_groups(es, l2, ObsList{grown}, up);
	for(int k = 0; k < 6; ++k)
	{
		V p = gen::point(s, true, 8);
		if(close(p, M(whole->get_reference_position()), 1e-9L)) continue;
		EXPECT(whole->compute_distance_to_point(E(p), Eigen::Array3d::Zero()) == grown->compute_distance_to_point(E(p), Eigen::Array3d::Zero()), "level values at " << p << " differ between an aggregate built at once and one built step by step");
	}
}

// ---------------------------------------------------------------- P19
namespace
{
	struct Window { R lo, hi, nlo, nhi; bool sure = true, smooth = true; };
	// bounds of the exact hull radius for directions in [a, b]
	Window window(const std::vector<Ell>& es, V ref, bool inner, R min_radius, R a, R b, int n)
	{
		Window w;
		w.lo = 1e30L;
		w.hi = 0;
		std::vector<R> least(es.size(), 1e30L), most(es.size(), -1e30L);
		for(int i = 0; i <= n; ++i)
		{
			R t = a + (b - a) * i / n;
			V d(std::cos(t), std::sin(t), 0);
			R best = 0;
			for(size_t k = 0; k < es.size(); ++k)
			{
				Cross c = crossing(es[k], ref, ref + d);
				least[k] = std::min(least[k], c.delta);
				most[k] = std::max(most[k], c.delta);
				if(c.delta < 0) continue;
				for(V p : {c.p1, c.p2})
				{
					R r = dot(p - ref, d);
					if(r <= 0) continue;
					best = best == 0 ? r : inner ? std::min(best, r) : std::max(best, r);
				}
			}
			R h = std::max(min_radius, best == 0 ? min_radius : best);
			w.lo = std::min(w.lo, h);
			w.hi = std::max(w.hi, h);
		}
		for(size_t k = 0; k < es.size(); ++k)
		{
			bool inside = plane::level(es[k], ref) < 1;
			if(inside) continue;
			if(least[k] < 0 && most[k] > 0) w.smooth = false;
			else if(std::min(std::fabs(least[k]), std::fabs(most[k])) < 0.02L) w.sure = false;
		}
		return w;
	}
	bool reference_ok(const std::vector<Ell>& es, V ref)
	{
		for(auto& e : es)
		{
			R g = plane::level(e, ref);
			if(std::fabs(g - 1) < 0.05L) return false;
		}
		return true;
	}
	struct HullCase { std::vector<Ell> es; V ref; bool inner; unsigned res; double min_radius; std::shared_ptr<StarShapeHull> hull; R delta; };
	HullCase hull_case(Ctx& ctx)
	{
		Src& s = ctx.s;
		HullCase h;
		int n = s.chance(1, 8) ? 6 + s.below(14) : 1 + s.below(5);
		if(s.chance(1, 3)) { R in; V c; h.es = ring(s, s.flag(), in, c); }
		else h.es = crowd(s, n, false, true, n > 5 ? 4 : 0);
		for(auto& e : h.es) if(s.chance(1, 3)) e.margin = V(gen::margin(s), gen::margin(s), 0);
		bool own = s.flag();
		bool row = s.chance(1, 12);
		if(row)
		{
			// many members one behind the other, as seen from the centre
			int many = 4 + s.below(28);
			V along = gen::direction(s, true), from = gen::point(s, true, 3);
			auto names = gen::names(s, many);
			h.es.clear();
			for(int i = 0; i < many; ++i)
			{
				Ell e;
				e.name = names[i];
				e.axis = V(gen::uni(s, 0.2, 0.6), gen::uni(s, 0.2, 0.6), 1);
				e.c = dbl(from + (R)(0.8 * i + gen::uni(s, 0, 0.4)) * along + (R)gen::uni(s, -0.1, 0.1) * V(-along.y, along.x, 0));
				if(s.flag()) e.q = gen::orientation(s, true);
				e.ref = e.c;
				h.es.push_back(e);
			}
			if(s.flag()) for(size_t i = h.es.size() - 1; i > 0; --i) std::swap(h.es[i], h.es[s.below(i + 1)]);
			ctx.label("row");
			n = many;
			own = s.chance(1, 4);
			h.ref = dbl(from + (R)gen::uni(s, -1, 0.3) * along);
		}
		V mean;
		for(auto& e : h.es) mean = mean + (1 / (R)h.es.size()) * e.c;
		if(!row) h.ref = own ? dbl(mean) : dbl(mean + (R)gen::uni(s, 0, 3) * gen::direction(s, true));
		else if(own) h.ref = dbl(mean);
		h.inner = s.flag();
		h.res = s.flag() ? 500 : 60 + s.below(600);
		h.min_radius = s.flag() ? 0.5 : gen::uni(s, 0.05, 2);
		h.delta = 2 * PI / h.res;
		R unit = rescale(ctx, h.es);
		h.ref = own ? V() : dbl(unit * h.ref);
		if(own) for(auto& e : h.es) h.ref = h.ref + (1 / (R)h.es.size()) * e.c;
		if(own) { mean = h.ref; h.ref = dbl(h.ref); }
		if(s.flag()) h.min_radius *= (double)unit;
		describe(ctx, h.ref, V(), 0, h.es);
		DESC("hull around " << h.ref << " inner " << h.inner << " resolution " << h.res << " min radius " << h.min_radius);
		if(!reference_ok(h.es, h.ref)) throw pbt::Discard();
		if(own && s.flag()) h.hull = std::make_shared<StarShapeHull>(make(h.es), h.inner, h.res, h.min_radius);
		else
		{
			h.hull = std::make_shared<StarShapeHull>(h.inner, h.res, h.min_radius);
			h.hull->compute_from_primitives(make(h.es), E(h.ref));
		}
		if(own) { V r = M(h.hull->get_reference_position()); EXPECT(close(r, mean, 1e-10L), "centre of the hull " << r << ", mean of the positions " << mean); h.ref = r; }
		return h;
	}
	double pick_angle(Src& s)
	{
		switch(s.below(4))
		{
		case 0: return (s.flag() ? 1 : -1) * (M_PI - std::exp(gen::uni(s, -16, -2))); // close to the seam
		case 1: return gen::angle(s);
		default: return gen::uni(s, -M_PI, M_PI);
		}
	}
}

PROP("P19", "radius and containment", "a member is met in the direction asked and the outline is known to within 10 percent", 1500, 25000)
{
	Src& s = ctx.s;
	HullCase h = hull_case(ctx);
	auto& hull = *h.hull;
	EXPECT(close(M(hull.get_reference_position()), h.ref, 0) && close(M(hull.get_position()), h.ref, 0), "position or reference point of the hull");
	R big = 0;
	for(auto& e : h.es) big = std::max(big, norm(e.c - h.ref) + e.lengths().x + e.lengths().y);
	for(int k = 0; k < 25; ++k)
	{
		double t = pick_angle(s);
		Window w = window(h.es, h.ref, h.inner, h.min_radius, t - 7 * h.delta, t + 3 * h.delta, 200);
		if(!w.sure) { ctx.label("tangent direction, skipped"); continue; }
		R rho = s.flag() ? gen::uni(s, 0.1, 10) : w.lo * (1 + gen::uni(s, -0.3, 0.3));
		V p = dbl(h.ref + rho * V(std::cos((R)t), std::sin((R)t), 0));
		rho = norm(p - h.ref);
		R g = hull.compute_distance_to_point(E(p), Eigen::Array3d::Zero());
		R r = h.inner ? rho * g : rho / g;
		R slack = 2e-3L * (w.hi - w.lo) + 3e-4L * big * (w.smooth ? 0.2L : 1) + 1e-7L;
		DESC("direction " << t << " radius " << (double)r << " bounds " << (double)w.lo << " " << (double)w.hi);
		if(w.hi - w.lo < 0.1L * w.lo && w.lo > h.min_radius * 1.0001L) ctx.interesting();
		ctx.label(w.hi <= h.min_radius * 1.000001L ? "nothing met" : w.smooth ? "member met" : "edge of a member");
		if(std::fabs(std::fabs(t) - M_PI) < 2 * (double)h.delta) ctx.label("across the seam");
		EXPECT(r >= w.lo - slack && r <= w.hi + slack, "hull radius " << (double)r << " in direction " << t << ", exact outline between " << (double)w.lo << " and " << (double)w.hi);
		EXPECT(r >= h.min_radius * (1 - 1e-9L), "hull radius " << (double)r << " below the minimum " << h.min_radius);
		// margins
		double m = gen::margin(s);
		R gm = hull.compute_distance_to_point(E(p), Eigen::Array3d(m, m, m)), want = h.inner ? r / (rho + m) : rho / (r + m);
		EXPECT(std::fabs(gm - want) < 1e-9L * (1 + want), "level value with margin " << m << " is " << (double)gm << ", expected " << (double)want);
		R ga = hull.compute_distance_to_agent(agent_at(p, V(1, 0, 0), m));
		EXPECT(ga == gm, "level value for an agent with that margin " << (double)ga << ", with the margin given " << (double)gm);
		// containment refers to the same radius
		bool in = hull.point_is_inside(E(p));
		if(std::fabs(rho - r) > 1e-9L * r) EXPECT(in == (rho < r), "contains " << in << " at radius " << (double)rho << ", hull radius " << (double)r);
		V q = dbl(h.ref + r * (s.flag() ? 1.001L : 0.999L) * V(std::cos((R)t), std::sin((R)t), 0));
		R gq = hull.compute_distance_to_point(E(q), Eigen::Array3d::Zero());
		EXPECT(hull.point_is_inside(E(q)) == (h.inner ? gq > 1 : gq < 1), "contains " << q << ": " << hull.point_is_inside(E(q)) << ", level value " << (double)gq);
	}
}

PROP("P19", "normal", "one smooth member around the direction asked", 1200, 20000)
{
	Src& s = ctx.s;
	HullCase h = hull_case(ctx);
	if(h.res < 200) throw pbt::Discard();
	auto& hull = *h.hull;
	for(int k = 0; k < 25; ++k)
	{
		double t = pick_angle(s);
		V dir(std::cos((R)t), std::sin((R)t), 0);
		R rho = s.flag() ? gen::uni(s, 0.1, 10) : 1 + gen::uni(s, -0.3, 0.3);
		V p = dbl(h.ref + rho * dir);
		double m = gen::margin(s);
		V n = M(hull.compute_normal_to_agent(agent_at(p, V(1, 0, 0), m)));
		DESC("direction " << t << " normal " << n);
		EXPECT(std::fabs(norm(n) - 1) < 1e-9L && std::fabs(n.z) < 1e-9L, "normal " << n << " in direction " << t << " is not a horizontal unit vector");
		// which side it points to is a convention
		if(dot(n, V(std::cos(t + h.delta), std::sin(t + h.delta), 0)) < 0) n = (R)-1 * n;
		Window w = window(h.es, h.ref, h.inner, h.min_radius, t - 5 * h.delta, t + 5 * h.delta, 100);
		if(!w.sure || !w.smooth || w.lo < h.min_radius * 1.05L) { ctx.label("edge or nothing met"); continue; }
		// normals of the exact outline over the window, by differences
		R worst = -1, widest = 1;
		V last;
		bool one = true;
		std::vector<V> pts;
		// the level surface through the agent: the margin is added outside and taken off inside
		R f0, n0;
		seen(h.es, h.ref, t, f0, n0);
		R scale = h.inner ? (norm(p - h.ref) + m) / n0 : 1, offset = h.inner ? -m : m;
		for(int i = -8; i <= 8; ++i)
		{
			R a = t + 0.5L * i * h.delta, f, nr;
			seen(h.es, h.ref, a, f, nr);
			R r = (h.inner ? nr : f) * scale + offset;
			pts.push_back(h.ref + r * V(std::cos(a), std::sin(a), 0));
		}
		std::vector<V> ns;
		for(size_t i = 1; i < pts.size(); ++i) { V d = pts[i] - pts[i - 1]; ns.push_back(model::unit(V(d.y, -d.x, 0))); }
		for(size_t i = 1; i < ns.size(); ++i) if(dot(ns[i], ns[i - 1]) < 0.99L) one = false;
		for(auto& a : ns) { worst = std::max(worst, dot(a, n)); for(auto& b : ns) widest = std::min(widest, dot(a, b)); }
		if(!one || widest < 0.9L) { ctx.label("corner between members"); continue; }
		ctx.interesting();
		ctx.label("smooth");
		if(std::fabs(std::fabs(t) - M_PI) < 2 * (double)h.delta) ctx.label("across the seam");
		EXPECT(worst > std::cos(0.12L), "normal " << n << " in direction " << t << ", closest exact normal " << (double)(std::acos(std::min<R>(1, worst)) * 180 / PI) << " degrees away (" << ns[ns.size() / 2] << ")");
	}
}

PROP("P19", "centre on an outline", "two members or more meet the centre", 400, 6000)
{
	Src& s = ctx.s;
	// obstacles that touch in the very centre of the hull
	V ref((int)s.below(9) - 4, (int)s.below(9) - 4, 0);
	int n = 1 + s.below(4);
	std::vector<Ell> es;
	auto names = gen::names(s, n);
	for(int i = 0; i < n; ++i)
	{
		Ell e;
		e.name = names[i];
		e.axis = V(0.25 * (1 + (int)s.below(8)), 0.25 * (1 + (int)s.below(8)), 1);
		int side = i < 2 && s.flag() ? i : (int)s.below(4);
		e.c = ref;
		if(side == 0) e.c.x += e.axis.x;
		if(side == 1) e.c.x -= e.axis.x;
		if(side == 2) e.c.y += e.axis.y;
		if(side == 3) e.c.y -= e.axis.y;
		e.ref = e.c;
		es.push_back(e);
	}
	bool inner = s.flag();
	int res = s.flag() ? 500 : 4 * (1 + s.below(100));
	R least = s.flag() ? 0.5L : 0.1L;
	describe(ctx, ref, V(), 0, es);
	DESC("hull around " << ref << " inner " << inner << " resolution " << res);
	if(n > 1) ctx.interesting();
	StarShapeHull hull(inner, res, (double)least);
	hull.compute_from_primitives(make(es), E(ref));
	for(int k = 0; k < 25; ++k)
	{
		double t = s.flag() ? gen::angle(s) : -M_PI + 2 * M_PI * ((double)s.below(res) - uni(s, 0.2, 0.8)) / res;
		V p = dbl(ref + (R)uni(s, 0.05, 6) * V(std::cos((R)t), std::sin((R)t), 0));
		R rho = norm(p - ref), g = hull.compute_distance_to_point(E(p), Eigen::Array3d::Zero()), r = inner ? rho * g : rho / g;
		EXPECT(r >= least * (1 - 1e-9L), "hull radius " << (double)r << " at " << p << ", below the minimum " << (double)least);
		EXPECT(hull.point_is_inside(E(p)) == (rho < r) || std::fabs(rho - r) < 1e-9L * r, "contains " << p << ": " << hull.point_is_inside(E(p)));
		V nn = M(hull.compute_normal_to_agent(agent_at(p, V(1, 0, 0), gen::margin(s))));
		EXPECT(std::fabs(norm(nn) - 1) < 1e-9L && std::fabs(nn.z) < 1e-9L, "normal " << nn << " at " << p << " is not a horizontal unit vector");
	}
}

PROP("P19", "closed hulls", "the hull is clearly closed or clearly open", 1200, 20000)
{
	HullCase h = hull_case(ctx);
	R least = 1e30L, stretch = 0, longest = 0;
	int n = 4 * h.res;
	for(int i = 0; i < 2 * n; ++i)
	{
		R f, nr;
		seen(h.es, h.ref, 2 * PI * i / n, f, nr);
		R r = std::max<R>(h.min_radius, h.inner ? nr : f);
		least = std::min(least, r);
		stretch = r < 1.15L * h.min_radius ? stretch + 1 : 0;
		longest = std::max(longest, stretch);
	}
	bool closed = least > 1.25L * h.min_radius, open = longest > 4 * 5 && least < 1.12L * h.min_radius;
	DESC("least radius " << (double)least);
	if(!closed && !open) throw pbt::Discard();
	// a stretch at the minimum radius of at least five samples keeps a sample that smoothing does not lift
	if(open)
	{
		R far = 0;
		for(auto& e : h.es) far = std::max(far, norm(e.c - h.ref) + norm(e.lengths()));
		if(0.0025L * far > 0.03L * h.min_radius) throw pbt::Discard();
	}
	ctx.interesting();
	ctx.label(closed ? "closed" : "open");
	EXPECT(h.hull->is_closed() == closed, "says closed " << h.hull->is_closed() << ", least radius of the outline " << (double)least << ", minimum radius " << h.min_radius);
}

PROP("P19", "aggregates use their hulls", "points inside and outside", 700, 12000)
{
	Src& s = ctx.s;
	std::vector<Ell> es;
	if(s.flag()) { R in; V c; es = ring(s, s.flag(), in, c); }
	else es = crowd(s, 1 + s.below(5), false);
	describe(ctx, V(), V(), 0, es);
	auto list = make(es);
	Aggregate ag(list);
	V ref = M(ag.get_reference_position());
	StarShapeHull inner(true), outer(false);
	inner.compute_from_primitives(list, E(ref));
	outer.compute_from_primitives(list, E(ref));
	EXPECT(ag.is_closed() == outer.is_closed(), "closed " << ag.is_closed() << ", its outer hull " << outer.is_closed());
	bool seen_in = false, seen_out = false;
	for(int k = 0; k < 20; ++k)
	{
		double t = pick_angle(s);
		V p = dbl(ref + (R)gen::uni(s, 0.05, 9) * V(std::cos((R)t), std::sin((R)t), 0));
		double m = gen::margin(s);
		// in the direction of a sample of the hull rounding decides which sample is taken
		R at = std::atan2(p.y - ref.y, p.x - ref.x), step = 2 * PI / 500, off = std::fabs(std::remainder(at + PI, step));
		if(off < 1e-4L * step || PI - std::fabs(at) < 1.5L * step) { ctx.label("direction of a sample, skipped"); continue; }
		bool in = outer.point_is_inside(E(p));
		for(auto& o : list) in = in || o->point_is_inside(E(p));
		(in ? seen_in : seen_out) = true;
		EXPECT(ag.point_is_inside(E(p)) == in, "contains " << p << ": " << ag.point_is_inside(E(p)) << ", its outer hull and members: " << in);
		auto& h = in ? inner : outer;
		Agent a = agent_at(p, V(1, 0, 0), m);
		auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); };
		EXPECT(near(ag.compute_distance_to_point(E(p), Eigen::Array3d(m, m, m)), h.compute_distance_to_point(E(p), Eigen::Array3d(m, m, m))), "level value at " << p << " is " << ag.compute_distance_to_point(E(p), Eigen::Array3d(m, m, m)) << ", of the hull " << h.compute_distance_to_point(E(p), Eigen::Array3d(m, m, m)));
		EXPECT(near(ag.compute_distance_to_agent(a), h.compute_distance_to_agent(a)), "level value for the agent at " << p);
		EXPECT(close(M(ag.compute_normal_to_agent(a)), M(h.compute_normal_to_agent(a)), 1e-7L), "normal at " << p);
	}
	if(seen_in && seen_out) ctx.interesting();
}

// ---------------------------------------------------------------- P20
namespace
{
	// everything an environment answers about a scene, at some probe points
	std::vector<double> answers(const Environment& env, const std::vector<V>& probes, std::vector<std::string>& names)
	{
		std::vector<double> r;
		names.clear();
		std::vector<Obs> l(env.get_obstacle_list().begin(), env.get_obstacle_list().end());
		std::sort(l.begin(), l.end(), [](const Obs& a, const Obs& b) { return a->get_name() < b->get_name(); });
		for(auto& o : l)
		{
			names.push_back(o->get_name());
			for(int i = 0; i < 3; ++i) { r.push_back(o->get_position()(i)); r.push_back(o->get_reference_position()(i)); }
			r.push_back(o->is_closed());
			for(size_t k = 0; k + 1 < probes.size(); k += 2)
			{
				Agent a = agent_at(probes[k], probes[k + 1], 0.1);
				r.push_back(o->compute_distance_to_agent(a));
				r.push_back(o->point_is_inside(E(probes[k])));
				Eigen::Vector3d n = o->compute_normal_to_agent(a), f = o->generate_repulsion(a, 1.5);
				for(int i = 0; i < 3; ++i) { r.push_back(n(i)); r.push_back(f(i)); }
			}
		}
		for(size_t k = 0; k + 1 < probes.size(); k += 2)
		{
			Agent a = agent_at(probes[k], probes[k + 1], 0.1);
			for(int mode = 0; mode < 4; ++mode)
			{
				Eigen::Vector3d v = Modulation::modulate_velocity(a, env, mode & 1, mode & 2);
				for(int i = 0; i < 3; ++i) r.push_back(v(i));
			}
			r.push_back(a.exist_path(E(probes[(k + 2) % probes.size()]), env.get_obstacle_list()));
		}
		return r;
	}
	void same(const std::vector<double>& a, const std::vector<double>& b, const std::vector<std::string>& na, const std::vector<std::string>& nb, const char* what)
	{
		std::string ta, tb;
		for(auto& x : na) ta += "'" + x + "' ";
		for(auto& x : nb) tb += "'" + x + "' ";
		EXPECT(na == nb, what << ": obstacles " << ta << "instead of " << tb);
		EXPECT(a.size() == b.size(), what << ": " << a.size() << " answers instead of " << b.size());
		for(size_t i = 0; i < a.size(); ++i)
			EXPECT(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(b[i])), what << ": answer " << i << " is " << a[i] << " instead of " << b[i]);
	}
	Ell read(const Ellipsoid& o)
	{
		Ell e;
		e.name = o.get_name();
		e.c = M(o.get_position());
		e.q = M(o.get_orientation());
		e.v = M(o.get_linear_velocity());
		e.w = M(o.get_angular_velocity());
		e.ref = M(o.get_reference_position());
		e.axis = M(o.get_axis_lengths());
		e.margin = M(o.get_safety_margin());
		e.curv = M(o.get_curvature_factor());
		return e;
	}
}

PROP("P20", "history", "obstacles moved after being grouped", 500, 8000)
{
	Src& s = ctx.s;
	int n = 1 + s.below(6);
	std::vector<Ell> es = crowd(s, n, false, true, 3);
	bool aggregated = s.chance(7, 8);
	Environment env(aggregated);
	std::map<std::string, std::shared_ptr<Ellipsoid>> there;
	int next = 0;
	auto add = [&]() {
		Ell e = es[next % n];
		e.name += "/" + std::to_string(next++);
		if(next > n) e.c = gen::point(s, true, 3);
		e.ref = e.c;
		auto o = make(e);
		env.add_obstacle(o);
		there[e.name] = o;
		DESC("add " << e);
	};
	// another obstacle of the same name in the same place
	auto replace = [&](std::string name) {
		Ell e = read(*there[name]);
		if(s.chance(3, 4)) e.axis = V(gen::length(s), gen::length(s), gen::length(s));
		if(s.flag()) e.q = gen::orientation(s, true);
		if(s.chance(1, 4)) e.v = gen::velocity(s, true);
		auto o = make(e);
		env.remove_obstacle(name);
		env.add_obstacle(o);
		there[name] = o;
		DESC("replaced by " << e);
	};
	int initial = n - s.below(std::min(n, 2) + 1);
	for(int i = 0; i < initial; ++i) add();
	bool grouped = false, moved = false;
	int steps = 2 + s.below(10);
	for(int k = 0; k < steps; ++k)
	{
		auto any = [&]() { auto it = there.begin(); std::advance(it, s.below(there.size())); return it; };
		int op = k == 0 && s.chance(3, 4) ? 7 : (int)s.below(14);
		switch(op)
		{
		case 0: if(there.size() < 7) add(); break;
		case 1: if(!there.empty()) { auto it = any(); DESC("remove " << it->first); env.remove_obstacle(it->first); there.erase(it); } break;
		case 2: case 3: if(!there.empty()) { auto it = any(); V p = gen::point(s, true, 4); DESC("move " << it->first << " to " << p); it->second->set_position(E(p)); if(s.flag()) it->second->set_reference_position(E(s.chance(1, 4) ? gen::point(s, true, 3) : p)); moved |= grouped; } break;
		case 4: if(!there.empty()) { auto it = any(); Q q = gen::orientation(s, true); DESC("turn " << it->first << " to " << q); it->second->set_orientation(E(q)); moved |= grouped; } break;
		case 5: if(!there.empty()) { auto it = any(); V p = gen::point(s, true, 4); Q q = gen::orientation(s, true); DESC("place " << it->first << " at " << p << " " << q); it->second->set_pose(Pose(E(p), E(q))); it->second->set_linear_velocity(E(gen::velocity(s, true))); moved |= grouped; } break;
		case 6: if(!there.empty()) { auto it = any(); V l(gen::length(s), gen::length(s), gen::length(s)); DESC("resize " << it->first << " to " << l); it->second->set_axis_lengths(A(l)); moved |= grouped; } break;
		case 8: if(!there.empty()) { auto it = any(); V d = dbl(std::exp((R)uni(s, -12, -1)) * gen::direction(s, true)); DESC("nudge " << it->first << " by " << d); it->second->set_position(it->second->get_position() + E(d)); moved |= grouped; } break;
		case 9: if(!there.empty()) { auto it = any(); int reps = 1 + s.below(12); V d = dbl(std::exp((R)uni(s, -9, -1)) * gen::direction(s, true)); DESC("creep " << it->first << " by " << d << " x" << reps); for(int r = 0; r < reps; ++r) { it->second->set_position(it->second->get_position() + E(d)); env.update(); } moved |= grouped; } break;
		case 10: if(!there.empty()) { auto it = any(); V c(1 + (int)s.below(3), 1 + (int)s.below(3), 1); DESC("curvature of " << it->first << " to " << c); it->second->set_curvature_factor(A(c)); moved |= grouped; } break;
		case 11: if(!there.empty()) { auto it = any(); V v = gen::velocity(s, true), w(0, 0, uni(s, -2, 2)); DESC("velocities of " << it->first << " to " << v << " " << w); it->second->set_linear_velocity(E(v)); it->second->set_angular_velocity(E(w)); } break;
		case 13: if(!there.empty()) replace(any()->first); break;
		case 12: { DESC("ask"); std::vector<V> some{gen::velocity(s, true), gen::point(s, true, 7)}; std::vector<std::string> dummy; answers(env, some, dummy); } break;
		default: DESC("update"); env.update();
		}
		for(auto& o : env.get_obstacle_list()) if(o->get_type() == "Aggregate") grouped = true;
	}
	if(!there.empty() && s.chance(1, 3))
	{
		// exactly one thing changes since an update
		env.update();
		if(s.flag()) { std::vector<V> some{gen::velocity(s, true), gen::point(s, true, 7)}; std::vector<std::string> dummy; answers(env, some, dummy); }
		auto it = there.begin();
		std::advance(it, s.below(there.size()));
		Ellipsoid& x = *it->second;
		int k = s.below(2);
		double by = (s.flag() ? 1 : -1) * (s.flag() ? uni(s, 0.1, 1.5) : std::exp(uni(s, -10, 0)));
		int what = s.below(8);
		std::string named = it->first;
		switch(what)
		{
		case 0: { Eigen::Array3d l = x.get_axis_lengths(); l(k) *= 1 + 0.6 * by; x.set_axis_lengths(l); break; }
		case 1: { Eigen::Array3d l = x.get_curvature_factor(); l(k) = l(k) == 1 ? 2 + (int)s.below(2) : 1; x.set_curvature_factor(l); break; }
		case 2: { Eigen::Vector3d p = x.get_position(); p(k) += by; x.set_position(p); break; }
		case 3: x.set_orientation(E(dbl(model::unit(model::mul(model::yaw(by), M(x.get_orientation())))))); break;
		case 4: { Eigen::Vector3d p = x.get_reference_position(); p(k) += 0.3 * by; x.set_reference_position(p); break; }
		case 5: { Eigen::Vector3d p = x.get_linear_velocity(); p(k) += by; x.set_linear_velocity(p); break; }
		case 6: { Eigen::Vector3d p = x.get_angular_velocity(); p(2) += by; x.set_angular_velocity(p); break; }
		default: replace(named);
		}
		DESC("last change " << what << " of '" << named << "' (" << k << ") by " << by << ", now " << read(*there[named]));
		ctx.label("one change since the last update");
	}
	// the same obstacles as they are now, in a new environment, added in another order
	ObsList copies;
	for(auto& x : there) copies.push_back(std::make_shared<Ellipsoid>(*x.second));
	if(s.flag()) copies.clear();
	if(copies.empty()) for(auto& x : there) copies.push_back(make(read(*x.second)));
	if(s.flag()) std::reverse(copies.begin(), copies.end());
	env.update();
	Environment fresh = environment(copies, aggregated);
	std::vector<V> probes;
	for(int i = 0; i < 8; ++i) probes.push_back(i % 2 ? gen::velocity(s, true) : gen::point(s, true, 7));
	DESC("probes"); for(auto& p : probes) DESC(p);
	if(moved) ctx.interesting();
	std::vector<std::string> n1, n2, n3;
	auto a1 = answers(env, probes, n1), a2 = answers(fresh, probes, n2);
	same(a1, a2, n1, n2, "after a history");
	env.update();
	auto a3 = answers(env, probes, n3);
	same(a3, a1, n3, n1, "after one more update");
	if(a3 != a1)
		for(size_t i = 0; i < a1.size(); ++i) EXPECT(a3[i] == a1[i] || std::isnan(a1[i]), "after one more update: answer " << i << " is " << a3[i] << " instead of " << a1[i]);
}

PROP("P20", "recomputed aggregates and hulls", "at least two members", 700, 12000)
{
	Src& s = ctx.s;
	std::vector<Ell> es = crowd(s, 1 + s.below(5), false);
	describe(ctx, V(), V(), 0, es);
	ObsList l = make(es), other = make(crowd(s, 1 + s.below(3), false));
	bool inner = s.flag();
	unsigned res = s.flag() ? 500 : 3 + s.below(400);
	V ref = dbl(es[0].c + (R)0.1L * gen::direction(s, true));
	StarShapeHull once(inner, res), twice(inner, res);
	once.compute_from_primitives(l, E(ref));
	int before = s.below(3);
	if(before == 1) twice.compute_from_primitives(l, E(ref));
	if(before == 2) twice.compute_from_primitives(s.flag() ? l : other, E(dbl(ref + std::exp((R)gen::uni(s, -16, 1.2)) * gen::direction(s, true))));
	if(s.chance(1, 4)) { twice.set_resolution(10 + s.below(20)); twice.compute_from_primitives(other); twice.set_resolution(res); }
	twice.compute_from_primitives(l, E(ref));
	Aggregate a1(l), a2(make(es));
	int more = s.below(3);
	for(int i = 0; i <= more; ++i) a2.update_hull();
	if(es.size() > 1) ctx.interesting();
	DESC("inner " << inner << " resolution " << res << " before " << before);
	for(int k = 0; k < 15; ++k)
	{
		double t = pick_angle(s);
		V p = dbl(ref + (R)gen::uni(s, 0.05, 6) * V(std::cos((R)t), std::sin((R)t), 0));
		Eigen::Array3d z = Eigen::Array3d::Zero();
		EXPECT(once.compute_distance_to_point(E(p), z) == twice.compute_distance_to_point(E(p), z), "level value at " << p << " (direction " << t << ") is " << twice.compute_distance_to_point(E(p), z) << " after recomputing, " << once.compute_distance_to_point(E(p), z) << " at first");
		EXPECT(once.is_closed() == twice.is_closed(), "closed");
		EXPECT(a1.compute_distance_to_point(E(p), z) == a2.compute_distance_to_point(E(p), z), "level value of the aggregate at " << p << " is " << a2.compute_distance_to_point(E(p), z) << " after recomputing, " << a1.compute_distance_to_point(E(p), z) << " at first");
	}
}

PROP("P20", "aggregates whose members move", "a member moved", 700, 12000)
{
	Src& s = ctx.s;
	std::vector<Ell> es;
	R in = 0;
	V c;
	bool walls = s.flag();
	if(walls) es = ring(s, s.chance(1, 3), in, c);
	else es = crowd(s, 1 + s.below(5), false);
	describe(ctx, V(), V(), 0, es);
	ObsList l = make(es);
	size_t first = s.flag() ? l.size() : s.below(l.size() + 1);
	ObsList begun(l.begin(), l.begin() + first);
	// the aggregate: of all of them at once, or one after the other
	auto a = first ? std::make_shared<Aggregate>(begun) : std::make_shared<Aggregate>();
	for(size_t i = first; i < l.size(); ++i) a->add_primitive(l[i], s.flag());
	bool moved = false;
	int steps = 1 + s.below(4);
	for(int k = 0; k < steps; ++k)
	{
		int op = s.below(5);
		if(op == 0) { V d = dbl(std::exp((R)uni(s, -10, 2)) * gen::direction(s, true)); DESC("all by " << d); for(auto& o : l) o->set_position(o->get_position() + E(d)); moved = true; }
		else if(op == 4 && s.flag()) { DESC("recomputed"); a->update_hull(); }
		else
		{
			auto o = std::static_pointer_cast<Ellipsoid>(l[s.below(l.size())]);
			if(op == 1) { V d = dbl(std::exp((R)uni(s, -10, 2)) * gen::direction(s, true)); DESC("'" << o->get_name() << "' by " << d); o->set_position(o->get_position() + E(d)); }
			if(op == 2) { Q q = gen::orientation(s, true); DESC("'" << o->get_name() << "' turned to " << q); o->set_orientation(E(q)); }
			if(op >= 3) { V x(gen::length(s), gen::length(s), 1); DESC("'" << o->get_name() << "' of lengths " << x); o->set_axis_lengths(A(x)); }
			moved = true;
		}
	}
	if(moved) ctx.interesting();
	if(walls) ctx.label("walls");
	ObsList order = l;
	if(s.flag()) std::reverse(order.begin(), order.end());
	Aggregate fresh(order);
	// both around the new centre, or both around the one kept
	if(s.flag()) a->set_reference_position(fresh.get_position());
	else { fresh.set_reference_position(a->get_reference_position()); fresh.update_hull(); }
	a->update_hull();
	EXPECT(a->get_name() == fresh.get_name(), "name '" << a->get_name() << "' instead of '" << fresh.get_name() << "'");
	V ref = M(fresh.get_reference_position());
	for(int k = 0; k < 15; ++k)
	{
		V p = dbl(ref + (R)gen::uni(s, 0.02, 8) * gen::direction(s, true));
		double m = s.flag() ? 0 : gen::margin(s);
		Agent ag = agent_at(p, V(1, 0, 0), m);
		double g1 = a->compute_distance_to_agent(ag), g2 = fresh.compute_distance_to_agent(ag);
		EXPECT(g1 == g2 || std::fabs(g1 - g2) <= 1e-9 * std::fabs(g2), "level value at " << p << " with margin " << m << " is " << g1 << " after recomputing, " << g2 << " for a new aggregate");
		EXPECT(a->point_is_inside(E(p)) == fresh.point_is_inside(E(p)), "contains " << p << ": " << a->point_is_inside(E(p)) << " after recomputing");
		V n1 = M(a->compute_normal_to_agent(ag)), n2 = M(fresh.compute_normal_to_agent(ag));
		EXPECT(close(n1, n2, 1e-9L) || std::isnan((double)n2.x), "normal at " << p << " is " << n1 << " after recomputing, " << n2 << " for a new aggregate");
	}
}

// ---------------------------------------------------------------- P21
PROP("P21", "law near aggregates", "well conditioned and within level value 20", 1500, 25000)
{
	Src& s = ctx.s;
	std::vector<Ell> es;
	if(s.chance(1, 3)) { R in; V c; es = ring(s, s.chance(1, 3), in, c); }
	else es = crowd(s, 2 + s.below(5), false);
	R unit = rescale(ctx, es);
	describe(ctx, V(), V(), 0, es);
	Environment env = environment(es, true);
	if(s.chance(1, 6))
	{
		// put into the environment as it is
		env = Environment(false);
		auto m = make(es);
		if(s.flag()) { auto list = Aggregation::aggregate_obstacles(m); for(auto& o : list) env.add_obstacle(o); ctx.label("aggregates added by hand"); }
		else { auto h = std::make_shared<StarShapeHull>(m, s.flag()); h->set_name("hull"); env.add_obstacle(h); env.add_obstacle(std::make_shared<Aggregate>(m)); ctx.label("with a hull of its own"); }
		env.update();
	}
	double margin = s.flag() ? 0 : gen::margin(s) * (s.flag() ? (double)unit : 1);
	bool met = false;
	// the hulls of each aggregate, computed apart from it
	std::map<Obs, std::pair<std::shared_ptr<StarShapeHull>, std::shared_ptr<StarShapeHull>>> hulls;
	for(auto& o : env.get_obstacle_list()) if(o->get_type() == "Aggregate")
	{
		auto& h = hulls[o];
		h.first = std::make_shared<StarShapeHull>(true);
		h.second = std::make_shared<StarShapeHull>(false);
		auto members = static_cast<const Aggregate&>(*o).get_primitives();
		V mean;
		for(auto& m : members) mean = mean + (1 / (R)members.size()) * M(m->get_position());
		h.first->compute_from_primitives(members, E(mean));
		h.second->compute_from_primitives(members, E(mean));
	}
	for(int k = 0; k < 12; ++k)
	{
		V p = dbl(unit * gen::point(s, true, 8)), v = gen::velocity(s, true);
		if(!hulls.empty() && s.flag())
		{
			auto it = hulls.begin();
			std::advance(it, s.below(hulls.size()));
			p = dbl(M(it->first->get_reference_position()) + unit * (R)gen::uni(s, 0.05, 4) * gen::direction(s, true));
		}
		Agent a = agent_at(p, v, margin);
		std::vector<model::Part> parts;
		bool aggregate = false, ok = true, within = false;
		for(auto& o : env.get_obstacle_list())
		{
			model::Part q;
			bool ag = o->get_type() == "Aggregate";
			V lever0 = p - M(o->get_reference_position());
			q.gamma = o->compute_distance_to_agent(a);
			q.n = model::rot(M(o->get_orientation()), M(o->compute_normal_to_agent(a)));
			if(ag)
			{
				// in the direction of a sample of the hull rounding decides which sample is taken
				R at = std::atan2(lever0.y, lever0.x), step = 2 * PI / 500, off = std::fabs(std::remainder(at + PI, step));
				if(off < 1e-4L * step || PI - std::fabs(at) < 1.5L * step) { ok = false; ctx.label("direction of a sample, skipped"); continue; }
				bool in = o->point_is_inside(E(p));
				within |= in;
				auto& h = in ? *hulls[o].first : *hulls[o].second;
				q.gamma = h.compute_distance_to_agent(a);
				q.n = M(h.compute_normal_to_agent(a));
			}
			V lever = p - M(o->get_reference_position());
			if(norm(lever) < 1e-6L) ok = false;
			q.r = model::unit(lever);
			q.vs = M(o->get_linear_velocity()) + model::cross(M(o->get_angular_velocity()), p - M(o->get_position()));
			if(ag && q.gamma < 20) aggregate = true;
			parts.push_back(q);
		}
		if(!ok) continue;
		auto want = model::law(v, parts);
		if(!want.good) { ctx.label(want.why); continue; }
		if(aggregate) { ctx.interesting(); ctx.label(within ? "inside an aggregate" : "near an aggregate"); met = true; }
		V got = M(Modulation::modulate_velocity(a, env));
		EXPECT(close(got, want.velocity, 2e-4L * want.scale + 1e-12L), "agent at " << p << " velocity " << v << " margin " << margin << ": avoidance velocity " << got << ", expected " << want.velocity);
	}
	if(!met) throw pbt::Discard();
}

namespace
{
	// drive the agent; returns the least level value of any member met on the way
	struct Run { R least = 1e30L, radial = 1e30L; int closest_step = -1; V at; };
	Run drive(const Environment& env, const std::vector<Ell>& es, V p, V target, double margin, double dt, int steps, double speed)
	{
		V ref;
		for(auto& e : es) ref = ref + (1 / (R)es.size()) * e.c;
		Run r;
		Agent a = agent_at(p, V(), margin);
		for(int k = 0; k < steps; ++k)
		{
			V d = target - p;
			R len = norm(d);
			if(len < 0.05L) break;
			V v = std::min<R>(speed, len) / len * d;
			a.set_position(E(p));
			a.set_linear_velocity(E(v));
			V u = M(Modulation::modulate_velocity(a, env));
			R n = norm(u);
			if(n > 2.5L * speed) u = 2.5L * speed / n * u;
			p = dbl(p + (R)dt * u);
			for(auto& e : es)
			{
				R g = plane::level(e, p);
				if(g < r.least) { r.least = g; r.closest_step = k; }
			}
			if(k % 5 == 0)
			{
				// distance from the reference point, over that of the outline seen from there plus the margin
				R at = std::atan2(p.y - ref.y, p.x - ref.x), least = 1e30L, f, nr;
				for(int i = -4; i <= 4; ++i) { seen(es, ref, at + i * 0.5L * 2 * PI / 500, f, nr); least = std::min(least, f); }
				// (less the longest step, which may end behind the level surface)
				r.radial = std::min(r.radial, (norm(p - ref) + 2.5L * speed * dt) / (least + margin));
			}
		}
		r.at = p;
		return r;
	}
}

PROP("P21", "outside stays outside", "came within 10 percent of the outline plus the margin", 300, 5000)
{
	Src& s = ctx.s;
	int n = 2 + s.below(3);
	gen::Opt o;
	o.curved = o.moving = o.refs = false;
	o.spread = 1.5;
	std::vector<Ell> es;
	for(int i = 0; i < n; ++i)
	{
		Ell e = gen::ellipsoid(s, o, std::string(1, (char)('a' + i)));
		for(int k = 0; k < 2; ++k) e.axis[k] = std::max<R>(0.5, std::min<R>(e.axis[k], 2));
		if(i) { V d = gen::direction(s, true); e.c = dbl(es[0].c + 0.6L * (R)s.unit() * std::min(es[0].axis.x, es[0].axis.y) * d); }
		e.ref = e.c;
		es.push_back(e);
	}
	double margin = s.flag() ? 0.1 : gen::uni(s, 0.1, 0.5);
	V mean;
	for(auto& e : es) mean = mean + (1 / (R)n) * e.c;
	double a0 = gen::angle(s);
	V start = dbl(mean + (R)gen::uni(s, 5, 7) * V(std::cos((R)a0), std::sin((R)a0), 0)), target = dbl(mean + (R)gen::uni(s, 5, 7) * V(std::cos((R)a0 + 2.6L + 1.2L * s.unit()), std::sin((R)a0 + 2.6L + 1.2L * s.unit()), 0));
	if(s.chance(1, 4)) target = dbl(mean); // into the group
	if(s.chance(3, 4))
	{
		// just outside the margin
		R f, nr;
		seen(es, mean, std::atan2(start.y - mean.y, start.x - mean.x), f, nr);
		start = dbl(mean + (f + margin * 1.3L + (R)gen::uni(s, 0.05, 0.6)) * model::unit(start - mean));
	}
	double dt = 0.01;
	describe(ctx, start, target - start, margin, es);
	auto list = make(es);
	Environment env = environment(list, true);
	if(env.get_obstacle_list().size() != 1) throw pbt::Discard();
	for(auto& e : es) if(plane::level(e, start, margin) < 1.02L) throw pbt::Discard();
	Run r = drive(env, es, start, target, margin, dt, 600, 1);
	if(r.radial < 1.1L) ctx.interesting();
	DESC("least level value " << (double)r.least);
	ctx.label(r.radial < 1.02L ? "touches the margin" : r.radial < 1.1L ? "comes close" : "stays away");
	EXPECT(r.least > 0.9L, "the agent gets into a member: level value " << (double)r.least << " at step " << r.closest_step);
	EXPECT(r.radial > 0.97L, "the agent comes closer than its margin: at " << (double)r.radial << " times the outline plus the margin");
}

PROP("P21", "inside stays inside", "came close to the walls", 250, 4000)
{
	Src& s = ctx.s;
	R inner;
	V centre;
	std::vector<Ell> es = ring(s, false, inner, centre);
	double margin = s.flag() ? 0 : gen::uni(s, 0.05, 0.4);
	V start = dbl(centre + (R)gen::uni(s, 0.05, 0.8) * inner * gen::direction(s, true)), target = dbl(centre + (R)gen::uni(s, 2, 4) * inner * gen::direction(s, true));
	describe(ctx, start, target - start, margin, es);
	Environment env = environment(es, true);
	if(env.get_obstacle_list().size() != 1) throw pbt::Discard();
	Run r = drive(env, es, start, target, margin, 0.01, 700, 1);
	V mean, d;
	for(auto& e : es) mean = mean + (1 / (R)es.size()) * e.c;
	d = r.at - mean;
	R f, wall;
	seen(es, mean, std::atan2(d.y, d.x), f, wall);
	R far = norm(d) / wall;
	DESC("least level value " << (double)r.least << " ends at " << (double)far);
	ctx.label(r.least < 1.2L ? "reaches the wall" : r.least < 5 ? "comes close to the wall" : "stays away from the wall");
	if(r.least < 30) ctx.interesting();
	EXPECT(far < 1.05L, "the agent got out of the ring: at " << r.at << ", " << (double)far << " times as far from the centre as the wall");
	EXPECT(r.least > 0.9L, "the agent gets into a wall: level value " << (double)r.least);
}
