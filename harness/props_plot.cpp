// P28 plots. The drawing library is replaced by a recorder (stub), every call is checked against
// the scene.
#include "plan.hpp"
#include "DynamicObstacleAvoidance/Utils/Plotting/PlottingTools.hpp"
using namespace doa;
using model::dot;
using model::norm;
using gen::uni;
#ifndef VERIF_PLOT_STUB
#error "the plots are checked with the recorder only"
#endif

namespace
{
	typedef matplotlibcpp::Call Call;
	typedef std::vector<Call> Calls;

	struct Point { double x, y; };
	double axis2(V p, bool xz) { return xz ? p.z : p.y; }
	Point seen_in(V p, bool xz) { return Point{(double)p.x, (double)axis2(p, xz)}; }
	using ::operator<<;
	std::ostream& operator<<(std::ostream& o, Point p) { return o << "(" << p.x << ", " << p.y << ")"; }
	bool near(Point a, Point b, double tol = 1e-9) { return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol; }

	// everything drawn in one panel: curves (several points), marks (one point), texts
	struct Panel
	{
		std::vector<std::vector<Point>> curves;
		std::vector<std::pair<Point, std::string>> marks, texts;
		std::vector<int> color_of; // of curves, by first letter of the format
		bool xlim = false, ylim = false;
		std::vector<double> cell;
	};
	void draw_into(Panel& p, const Call& c)
	{
		if(c.fn == "plot")
		{
			EXPECT(c.x.size() == c.y.size(), "a curve of " << c.x.size() << " by " << c.y.size() << " values");
			std::vector<Point> v;
			for(size_t i = 0; i < c.x.size(); ++i) v.push_back(Point{c.x[i], c.y[i]});
			if(v.size() == 1) p.marks.push_back({v[0], c.s});
			else { p.curves.push_back(v); p.color_of.push_back(c.s.empty() ? 0 : c.s[0]); }
		}
		else if(c.fn == "text") p.texts.push_back({Point{c.nums[0], c.nums[1]}, c.s});
		else if(c.fn == "xlim" || c.fn == "ylim")
		{
			(c.fn == "xlim" ? p.xlim : p.ylim) = true;
			EXPECT(c.nums[0] <= -10 && c.nums[1] >= 10, c.fn << " from " << c.nums[0] << " to " << c.nums[1] << " does not show the workspace from -10 to 10");
		}
	}
	bool take_mark(Panel& p, Point at)
	{
		for(size_t i = 0; i < p.marks.size(); ++i)
			if(near(p.marks[i].first, at)) { p.marks.erase(p.marks.begin() + i); return true; }
		return false;
	}
	bool take_text(Panel& p, Point at, const std::string& s)
	{
		for(size_t i = 0; i < p.texts.size(); ++i)
			if(p.texts[i].second == s && near(p.texts[i].first, at)) { p.texts.erase(p.texts.begin() + i); return true; }
		return false;
	}
	// level value of a drawn point with respect to the outline of the ellipsoid with the lengths
	// given: in "xy" of its section through the centre (turned about the vertical: the outline
	// seen from above), in "xz" of its outline seen along y
	R outline_level(const Ell& e, V l, bool xz, Point p)
	{
		// matrix of the outline in the plane: A = sum of l_i^2 u_i u_i^T, u_i the axes projected
		R a = 0, b = 0, c = 0;
		for(int i = 0; i < (xz ? 3 : 2); ++i)
		{
			V u;
			u[i] = 1;
			u = model::rot(e.q, u);
			R x = u.x, y = xz ? u.z : u.y;
			a += l[i] * l[i] * x * x;
			b += l[i] * l[i] * x * y;
			c += l[i] * l[i] * y * y;
		}
		R det = a * c - b * b;
		R dx = p.x - e.c.x, dy = p.y - axis2(e.c, xz);
		return (c * dx * dx - 2 * b * dx * dy + a * dy * dy) / det;
	}
	// once round its centre, however flat it is
	bool goes_round(const std::vector<Point>& v, Point centre)
	{
		R w = 0, h = 0, sxy = 0;
		for(auto& p : v) { w += (p.x - centre.x) * (p.x - centre.x); h += (p.y - centre.y) * (p.y - centre.y); sxy += (p.x - centre.x) * (p.y - centre.y); }
		// coordinates in which the outline is round (Cholesky factor of its covariance)
		R l1 = std::sqrt(w), l2 = l1 > 0 ? sxy / l1 : 0, l3 = std::sqrt(std::max<R>(1e-30L, h - l2 * l2));
		if(!(l1 > 0)) return false;
		R turn = 0, widest = 0;
		for(size_t i = 1; i < v.size(); ++i)
		{
			auto at = [&](Point p) { R x = ((R)p.x - centre.x) / l1, y = ((R)p.y - centre.y - l2 * x) / l3; return std::atan2(y, x); };
			R a = at(v[i - 1]), b = at(v[i]);
			R d = std::remainder(b - a, 2 * PI);
			turn += d;
			widest = std::max(widest, std::fabs(d));
		}
		return std::fabs(std::fabs(turn) - 2 * PI) < 0.35L && widest < 1.9L;
	}
	// is this curve the outline?
	bool is_outline(const std::vector<Point>& v, const Ell& e, V l, bool xz)
	{
		if(v.size() < 12) return false;
		for(auto& p : v) if(std::fabs(outline_level(e, l, xz, p) - 1) > 1e-6L) return false;
		return goes_round(v, seen_in(e.c, xz));
	}
	bool take_outline(Panel& p, const Ell& e, V l, bool xz)
	{
		for(size_t i = 0; i < p.curves.size(); ++i)
			if(is_outline(p.curves[i], e, l, xz)) { p.curves.erase(p.curves.begin() + i); return true; }
		return false;
	}
	std::string curves(const Panel& p)
	{
		std::ostringstream o;
		for(auto& c : p.curves) { o << " [" << c.size() << " points"; for(size_t i = 0; i < c.size(); i += std::max<size_t>(1, c.size() / 4)) o << " " << c[i]; o << "]"; }
		return o.str();
	}
	std::string marks(const Panel& p)
	{
		std::ostringstream o;
		for(auto& c : p.marks) o << " " << c.first << c.second;
		for(auto& c : p.texts) o << " " << c.first << "'" << c.second << "'";
		return o.str();
	}
	// takes what must be drawn for one ellipsoid
	void expect_ellipsoid(Panel& p, const Ell& e, bool xz)
	{
		const char* pl = xz ? "xz" : "xy";
		EXPECT(take_outline(p, e, e.axis, xz), "no outline of '" << e.name << "' " << e << " in the " << pl << " plane; curves:" << curves(p));
		EXPECT(take_outline(p, e, e.lengths(), xz), "no safety outline of '" << e.name << "' " << e << " in the " << pl << " plane; curves:" << curves(p));
		if(e.name == "") EXPECT(take_mark(p, seen_in(e.c, xz)), "no mark at the position of an obstacle without a name at " << e.c << " in the " << pl << " plane; marks:" << marks(p));
		else EXPECT(take_text(p, seen_in(e.c, xz), e.name), "no label '" << e.name << "' at " << e.c << " in the " << pl << " plane; marks:" << marks(p));
		EXPECT(take_mark(p, seen_in(e.ref, xz)), "no mark at the reference point of '" << e.name << "' at " << e.ref << " in the " << pl << " plane; marks:" << marks(p));
	}
	// a hull is drawn on its own outline
	bool is_hull(const std::vector<Point>& v, const StarShapeHull& h, bool inner, bool xz, int res = 500)
	{
		if(v.size() < std::min<size_t>(res, 100)) return false;
		V c = M(h.get_position());
		if(xz)
		{
			for(auto& p : v) if(std::fabs(p.y - (double)c.z) > 1e-9) return false;
			// as wide as seen from above
			double lo = 1e300, hi = -1e300;
			R wl = 1e300L, wh = -1e300L;
			for(auto& p : v) { lo = std::min(lo, p.x); hi = std::max(hi, p.x); }
			for(int i = 0; i < res; ++i)
			{
				R a = -PI + 2 * PI * i / res - 1e-7L;
				V q = c + V(std::cos(a), std::sin(a), 0);
				R g = h.compute_distance_to_point(E(q), Eigen::Array3d::Zero()), r = inner ? g : 1 / g;
				// next to the direction -pi the look-up takes the point before or after
				if(std::fabs(std::fabs(a) - PI) > 15.0L / res) wl = std::min(wl, c.x + r * std::cos(a));
				wh = std::max(wh, c.x + r * std::cos(a));
			}
			R tol = 1e-4L * (1 + std::fabs(wl));
			int beyond = 0;
			for(auto& p : v) beyond += p.x < wl - tol;
			return lo < wl + tol && beyond <= 6 && std::fabs(hi - wh) < 1e-4L * (1 + std::fabs(wh));
		}
		for(auto& p : v)
		{
			// a little before the direction of the sample, so that rounding does not pick the next
			R a = std::atan2((R)p.y - c.y, (R)p.x - c.x) - 1e-7L, rho = std::sqrt(((R)p.x - c.x) * ((R)p.x - c.x) + ((R)p.y - c.y) * ((R)p.y - c.y));
			V q = c + rho * V(std::cos(a), std::sin(a), 0);
			R g = h.compute_distance_to_point(E(q), Eigen::Array3d::Zero());
			// next to the direction -pi the look-up takes the point before or after, which can be much further
			if(std::fabs(std::fabs(a) - PI) < 15.0L / res) continue;
			if(!(std::fabs(g - 1) <= 1e-5L)) return false;
		}
		// once round, in even steps
		R turn = 0;
		for(size_t i = 0; i < v.size(); ++i)
		{
			auto at = [&](Point p) { return std::atan2((R)p.y - c.y, (R)p.x - c.x); };
			R d = std::remainder(at(v[(i + 1) % v.size()]) - at(v[i]), 2 * PI);
			if(std::fabs(d) > 2 * PI / res + 5e-4L) return false;
			turn += d;
		}
		return std::fabs(std::fabs(turn) - 2 * PI) < 1e-6L;
	}
	void expect_hull(Panel& p, const StarShapeHull& h, bool inner, bool xz, int res = 500)
	{
		for(size_t i = 0; i < p.curves.size(); ++i)
			if(is_hull(p.curves[i], h, inner, xz, res)) { p.curves.erase(p.curves.begin() + i); return; }
		FAILS("the " << (inner ? "inner" : "outer") << " hull is not drawn in the " << (xz ? "xz" : "xy") << " plane; curves:" << curves(p));
	}
	void expect_obstacles(Panel& p, const ObsList& list, const std::map<const Obstacle*, Ell>& es, bool xz)
	{
		for(auto& o : list)
		{
			if(o->get_type() != "Aggregate") { expect_ellipsoid(p, es.at(o.get()), xz); continue; }
			auto& m = static_cast<const Aggregate&>(*o).get_primitives();
			V ref = M(o->get_reference_position());
			for(auto& q : m) { Ell e = es.at(q.get()); e.ref = ref; expect_ellipsoid(p, e, xz); }
			StarShapeHull inner(true), outer(false);
			inner.compute_from_primitives(m, E(ref));
			outer.compute_from_primitives(m, E(ref));
			expect_hull(p, outer, false, xz);
			expect_hull(p, inner, true, xz);
			// the reference point of the aggregate and of its hulls
			EXPECT(take_mark(p, seen_in(ref, xz)), "no mark at the reference point of '" << o->get_name() << "' at " << ref << " in the " << (xz ? "xz" : "xy") << " plane; marks:" << marks(p));
			while(take_mark(p, seen_in(ref, xz))) {}
		}
	}
	void nothing_left(const Panel& p, bool xz)
	{
		EXPECT(p.curves.empty(), "drawn in the " << (xz ? "xz" : "xy") << " plane but not in the scene:" << curves(p));
		EXPECT(p.marks.empty() && p.texts.empty(), "drawn in the " << (xz ? "xz" : "xy") << " plane but not in the scene:" << marks(p));
	}
	void expect_agent(Panel& p, V at, bool xz, const char* who)
	{
		EXPECT(take_mark(p, seen_in(at, xz)), who << " is not drawn at its position " << at << " in the " << (xz ? "xz" : "xy") << " plane; marks:" << marks(p));
	}
	void expect_trajectory(Panel& p, V goal, const std::vector<V>& way, bool xz)
	{
		const char* pl = xz ? "xz" : "xy";
		EXPECT(take_mark(p, seen_in(goal, xz)), "the goal " << goal << " is not drawn in the " << pl << " plane; marks:" << marks(p));
		if(way.size() == 1) { EXPECT(take_mark(p, seen_in(way[0], xz)), "the trajectory is not drawn in the " << pl << " plane"); return; }
		for(size_t i = 0; i < p.curves.size(); ++i)
		{
			auto& c = p.curves[i];
			bool all = c.size() == way.size();
			for(size_t k = 0; k < way.size() && all; ++k) all = near(c[k], seen_in(way[k], xz), 0);
			if(all) { p.curves.erase(p.curves.begin() + i); return; }
		}
		FAILS("the trajectory is not drawn point by point in the " << pl << " plane; curves:" << curves(p));
	}

	struct Scene
	{
		std::vector<Ell> es;
		ObsList all, list;
		std::map<const Obstacle*, Ell> of;
		bool aggregated = false;
	};
	Scene scene(Ctx& ctx, bool grouped)
	{
		Src& s = ctx.s;
		Scene c;
		int n = (s.chance(1, 5) ? 5 + s.below(s.chance(1, 4) ? 20 : 6) : s.below(5)) + (grouped ? 2 : 0);
		gen::Opt o; o.far = true;
		o.planar = grouped || s.flag();
		o.curved = false;
		o.spread = grouped ? 2 : 5;
		o.z = s.flag() ? 0 : gen::coord(s);
		auto names = gen::names(s, n);
		for(int i = 0; i < n; ++i)
		{
			Ell e = gen::ellipsoid(s, o, names[i]);
			if(s.chance(1, 6)) { bool other = false; for(auto& x : c.es) other |= x.name == ""; for(int k = i + 1; k < n; ++k) other |= names[k] == ""; if(!other) e.name = ""; }
			if(!o.planar && s.flag()) e.q = Q();
			c.es.push_back(e);
		}
		if(s.chance(1, 3)) for(auto& e : c.es) e.c.z = e.ref.z = o.z;
		describe(ctx, V(), V(), 0, c.es);
		c.all = make(c.es);
		for(int i = 0; i < n; ++i) c.of[c.all[i].get()] = c.es[i];
		c.list = grouped ? Aggregation::aggregate_obstacles(c.all) : c.all;
		return c;
	}
	// the xy plane shows the section through the centre, which for an obstacle tipped over is not
	// its outline: those are checked in the xz plane only
	bool upright(const Scene& c) { for(auto& e : c.es) if(std::fabs(e.q.x) > 1e-12L || std::fabs(e.q.y) > 1e-12L) return false; return true; }
	void read(Calls& c, std::vector<Panel>& panels)
	{
		panels.assign(1, Panel());
		bool first = true;
		for(auto& x : c)
		{
			if(x.fn == "subplot") { if(!first) panels.push_back(Panel()); first = false; panels.back().cell = x.nums; continue; }
			draw_into(panels.back(), x);
		}
	}
	std::vector<double> state(const ObsList& l)
	{
		std::vector<double> r;
		for(auto& o : l)
		{
			for(int i = 0; i < 3; ++i) { r.push_back(o->get_position()(i)); r.push_back(o->get_reference_position()(i)); r.push_back(o->get_safety_margin()(i)); r.push_back(o->get_linear_velocity()(i)); }
			for(int i = 0; i < 4; ++i) r.push_back(o->get_orientation().coeffs()(i));
		}
		return r;
	}
}

PROP("P28", "one obstacle", "margins that are not zero, turned", 2500, 50000)
{
	Src& s = ctx.s;
	gen::Opt o; o.far = true;
	o.curved = false;
	bool xz = s.flag();
	o.planar = !xz || s.flag();
	o.z = s.flag() ? 0 : gen::coord(s);
	Ell e = gen::ellipsoid(s, o, s.chance(1, 4) ? "" : gen::name(s, 1));
	if(xz && s.flag()) e.q = s.flag() ? Q() : dbl(model::about(V(0, 1, 0), gen::angle(s)));
	DESC(e << " plane " << (xz ? "xz" : "xy"));
	if(norm(e.margin) > 0 && std::fabs(e.q.w) < 0.999L) ctx.interesting();
	auto ob = make(e);
	used_before(ctx, *ob, [&]() { ob->draw("k", xz ? "xz" : "xy"); });
	matplotlibcpp::calls().clear();
	if(!xz && s.flag()) { if(s.flag()) ob->draw(); else static_cast<Obstacle&>(*ob).draw(); }
	else ob->draw(s.flag() ? "k" : "r", xz ? "xz" : "xy");
	std::vector<Panel> p;
	read(matplotlibcpp::calls(), p);
	EXPECT(p.size() == 1, "more than one panel");
	expect_ellipsoid(p[0], e, xz);
	nothing_left(p[0], xz);
	ctx.label(xz ? "xz plane" : "xy plane");
}

PROP("P28", "aggregates", "two members or more", 250, 4000)
{
	Src& s = ctx.s;
	Scene c = scene(ctx, true);
	bool xz = s.flag();
	DESC("plane " << (xz ? "xz" : "xy"));
	bool any = false;
	for(auto& o : c.list) any |= o->get_type() == "Aggregate";
	if(!any) throw pbt::Discard();
	ctx.interesting();
	matplotlibcpp::calls().clear();
	auto before = state(c.all);
	if(!xz && s.flag())
		for(auto& o : c.list)
		{
			if(o->get_type() == "Aggregate") static_cast<Aggregate&>(*o).draw();
			else o->draw();
		}
	else PlottingTools::plot_obstacles(c.list, xz ? "xz" : "xy");
	EXPECT(before == state(c.all), "drawing changed an obstacle");
	std::vector<Panel> p;
	read(matplotlibcpp::calls(), p);
	EXPECT(p.size() == 1, "more than one panel");
	expect_obstacles(p[0], c.list, c.of, xz);
	nothing_left(p[0], xz);
	ctx.label(xz ? "xz plane" : "xy plane");
}

PROP("P28", "hulls", "two members or more", 300, 4000)
{
	Src& s = ctx.s;
	Scene c = scene(ctx, true);
	bool xz = s.flag(), inner = s.flag();
	int res = s.flag() ? 20 + s.below(80) : 20 + s.below(600);
	double least = s.flag() ? 0.5 : gen::uni(s, 0.05, 2);
	V ref = s.flag() ? c.es[0].c : gen::point(s, true, 3);
	ref.z = c.es[0].c.z; // a hull lies in the plane of its members
	std::string name = s.flag() ? "" : gen::name(s, 1);
	DESC("hull '" << name << "' around " << ref << " inner " << inner << " resolution " << res << " minimum radius " << least << " plane " << (xz ? "xz" : "xy"));
	if(c.es.size() > 1) ctx.interesting();
	StarShapeHull hull(inner, res, least);
	if(name != "") hull.set_name(name);
	hull.compute_from_primitives(c.all, E(ref));
	matplotlibcpp::calls().clear();
	if(!xz && s.flag()) { if(s.flag()) hull.draw(); else static_cast<Obstacle&>(hull).draw(); }
	else hull.draw(s.flag() ? "k" : "r", xz ? "xz" : "xy");
	std::vector<Panel> p;
	read(matplotlibcpp::calls(), p);
	EXPECT(p.size() == 1, "more than one panel");
	expect_hull(p[0], hull, inner, xz, res);
	V at = M(hull.get_position());
	if(name == "") EXPECT(take_mark(p[0], seen_in(at, xz)), "no mark at the position " << at << " of a hull without a name; marks:" << marks(p[0]));
	else EXPECT(take_text(p[0], seen_in(at, xz), name), "no label '" << name << "' at " << at << "; marks:" << marks(p[0]));
	EXPECT(take_mark(p[0], seen_in(M(hull.get_reference_position()), xz)), "no mark at the reference point " << M(hull.get_reference_position()) << " of the hull; marks:" << marks(p[0]));
	nothing_left(p[0], xz);
	ctx.label(xz ? "xz plane" : "xy plane");
}

PROP("P28", "whole figures", "an obstacle, a trajectory and two panels or a file", 1800, 40000)
{
	Src& s = ctx.s;
	Scene c = scene(ctx, s.chance(1, 25));
	int what = s.below(3); // agent and obstacles, obstacles only, guard
	bool three = s.flag(), show = s.flag();
	static const char* files[] = {"", "picture", "a b", "run_1", "x", "v1.2", "run.7", "_x", "Plot-3"};
	std::string file = files[s.below(9)];
	std::vector<V> way;
	int n = s.flag() ? s.below(5) : s.below(60);
	for(int i = 0; i < n; ++i) way.push_back(gen::point(s, false));
	V goal = gen::point(s, false), at = gen::point(s, false), at2 = gen::point(s, false);
	Agent agent = agent_at(at, gen::velocity(s, false), gen::margin(s)), guard = agent_at(at2, gen::velocity(s, false), gen::margin(s));
	std::deque<Eigen::Vector3d> history;
	for(auto& p : way) history.push_back(E(p));
	DESC("kind " << what << " 3d " << three << " show " << show << " file '" << file << "' goal " << goal << " agents at " << at << " " << at2 << " trajectory of " << n);
	matplotlibcpp::calls().clear();
	auto before = state(c.all);
	bool defaults = s.chance(1, 4);
	if(what == 0)
	{
		if(defaults) { file = ""; show = true; three = false; PlottingTools::plot_configuration(agent, c.list, E(goal), history); }
		else PlottingTools::plot_configuration(agent, c.list, E(goal), history, file, show, three);
	}
	else if(what == 1)
	{
		if(defaults) { file = ""; show = true; three = false; PlottingTools::plot_configuration(c.list); }
		else PlottingTools::plot_configuration(c.list, file, show, three);
	}
	else
	{
		if(defaults) { three = false; PlottingTools::plot_guard_configuration(agent, guard, c.list, E(goal), history, file, show); }
		else PlottingTools::plot_guard_configuration(agent, guard, c.list, E(goal), history, file, show, three);
	}
	EXPECT(before == state(c.all), "plotting changed an obstacle");
	EXPECT(close(M(agent.get_position()), at, 0) && close(M(guard.get_position()), at2, 0), "plotting changed an agent");
	Calls calls = matplotlibcpp::calls();
	// one figure: opened first, closed last, saved and shown as asked and after it was drawn
	int opened = -1, closed = -1, saved = -1, shown = -1, last = -1, saves = 0, shows = 0;
	std::string name;
	for(size_t i = 0; i < calls.size(); ++i)
	{
		auto& x = calls[i];
		if(x.fn == "figure") { EXPECT(opened < 0, "two figures"); opened = i; }
		else if(x.fn == "close") { EXPECT(closed < 0, "closed twice"); closed = i; }
		else if(x.fn == "save") { saved = i; ++saves; name = x.s; }
		else if(x.fn == "show") { shown = i; ++shows; }
		else if(x.fn == "plot" || x.fn == "text") { last = i; EXPECT(opened >= 0, "drawn before the figure was opened"); }
	}
	EXPECT(opened >= 0 && closed == (int)calls.size() - 1, "the figure is not opened, or not closed in the end");
	EXPECT(saves == (file != "" ? 1 : 0), "saved " << saves << " times, file name '" << file << "'");
	EXPECT(shows == (show ? 1 : 0), "shown " << shows << " times");
	if(saves) EXPECT(saved > last && name == "/tmp/" + file + ".png", "saved as '" << name << "', file name '" << file << "'");
	if(shows) EXPECT(shown > last && (!saves || saved < shown), "shown before it was complete");
	std::vector<Panel> p;
	read(calls, p);
	EXPECT(p.size() == (three ? 2u : 1u), p.size() << " panels");
	if(!c.es.empty() && n > 1 && (three || saves)) ctx.interesting();
	// the panels are different cells of one grid, so that none hides another
	if(p.size() == 2)
	{
		auto &a = p[0].cell, &b = p[1].cell;
		EXPECT(a.size() == 3 && b.size() == 3 && a[0] == b[0] && a[1] == b[1] && a[2] != b[2], "the panels are not cells of one grid");
		for(auto* q : {&a, &b}) EXPECT((*q)[2] >= 1 && (*q)[2] <= (*q)[0] * (*q)[1], "a panel outside its grid");
	}
	for(size_t k = 0; k < p.size(); ++k)
	{
		bool xz = three ? k == 1 : what == 2;
		EXPECT(p[k].xlim && p[k].ylim, "no limits in panel " << k);
		if(what != 1) expect_agent(p[k], at, xz, what == 2 ? "the platform" : "the agent");
		if(what == 2) expect_agent(p[k], at2, xz, "the guard");
		if(what != 1) expect_trajectory(p[k], goal, way, xz);
		if(!xz && !upright(c)) { ctx.label("obstacles tipped over, outlines in xy not checked"); continue; }
		expect_obstacles(p[k], c.list, c.of, xz);
		nothing_left(p[k], xz);
	}
	ctx.label(what == 0 ? "agent" : what == 1 ? "obstacles only" : "guard");
}
