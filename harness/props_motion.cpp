// P01-P09: the avoidance velocity
#include "plan.hpp"
using namespace doa;
using model::dot;
using model::norm;

static Eigen::Vector3d avoid(const Agent& a, const Environment& e) { return Modulation::modulate_velocity(a, e); }

struct Scene
{
	V p, v;
	double margin = 0;
	std::vector<Ell> obs;
	bool planar = true;
};

static double agent_margin(Src& s)
{
	if(!s.chance(1, 3)) return 0;
	return s.flag() ? 0.5 : s.chance(3, 4) ? gen::uni(s, 0, 1) : std::exp(gen::uni(s, -6, 1.6));
}

// scene whose agent is placed with respect to the first obstacle
static Scene scene(Src& s, int max_obs, bool moving, bool inside = true)
{
	Scene c;
	c.planar = s.flag();
	gen::Opt o; o.flat = o.far = true;
	o.planar = c.planar;
	o.moving = moving;
	int n = 1 + s.below(max_obs);
	if(max_obs > 1 && s.chance(1, 8)) n += 2 + s.below(8);
	auto names = gen::names(s, n);
	for(int i = 0; i < n; ++i) c.obs.push_back(gen::ellipsoid(s, o, names[i]));
	c.margin = agent_margin(s);
	const Ell& e = c.obs[0];
	uint32_t how = s.below(8);
	if(how == 0) c.p = gen::point(s, c.planar);
	else if(how == 1 && inside) c.p = gen::at_level(s, e, gen::uni(s, 0.5, 1), c.margin, c.planar);
	else c.p = gen::at_level(s, e, gen::outside_level(s), c.margin, c.planar);
	switch(s.below(4))
	{
	case 0: c.v = dbl((R)gen::uni(s, 0.2, 2) * model::unit(e.c - c.p)); break;
	case 1: c.v = dbl((R)gen::uni(s, -2, 2) * e.normal(c.p, c.margin)); break;
	default: c.v = gen::velocity(s, c.planar);
	}
	if(c.planar) c.v.z = 0;
	// bring some of the others close, so that several matter
	for(int i = 1; i < n; ++i)
	{
		if(!s.chance(2, 3)) continue;
		Ell& f = c.obs[i];
		V at = gen::at_level(s, f, s.flag() ? gen::outside_level(s) : gen::uni(s, 1, 3), c.margin, c.planar);
		V d = c.p - at;
		if(c.planar) d.z = 0;
		f.c = dbl(f.c + d);
		f.ref = dbl(f.ref + d);
	}
	return c;
}

// ---------------------------------------------------------------- P01
PROP("P01", "normal component, one obstacle", "the level value is below 5 and the desired velocity points at the obstacle", 150000, 1200000)
{
	Scene c = scene(ctx.s, 1, true);
	describe(ctx, c.p, c.v, c.margin, c.obs);
	const Ell& e = c.obs[0];
	model::Part k = model::part(e, c.p, c.margin);
	R nr = dot(k.n, k.r);
	if(!(nr > 0.05L) || k.gamma > 1e6L || k.ncond > 1e-9L) throw pbt::Discard();
	Agent a = agent_at(c.p, c.v, c.margin);
	Environment env = environment(c.obs);
	used_before(ctx, env, a, [&]() { avoid(a, env); });
	V u = M(avoid(a, env));
	V vo = std::exp(1 - std::max<R>(1, k.gamma)) * k.vs;
	R have = dot(k.n, u - vo), want = (k.gamma <= 1 ? 0 : 1 - 1 / k.gamma) * dot(k.n, c.v - vo);
	R scale = norm(c.v) + norm(vo);
	R tol = 2e-7L * (scale + 1e-3L) / nr;
	if(k.gamma < 5 && dot(k.n, c.v - vo) < -1e-3L) ctx.interesting();
	ctx.label(c.planar ? "planar" : "3-D");
	ctx.label(k.gamma <= 1 ? "on the surface or inside the margin" : k.gamma < 1.2L ? "close" : "further");
	if(norm(k.vs) > 0) ctx.label("moving obstacle");
	if(norm(e.ref - e.c) > 0) ctx.label("reference point off centre");
	EXPECT(std::fabs(have - want) <= tol, "normal component of the relative avoidance velocity is " << (double)have << ", law says " << (double)want << " (level " << (double)k.gamma << ", avoidance " << u << ")");
	if(k.gamma <= 1 + 1e-9L) EXPECT(have >= -tol, "points into the surface: " << (double)have);
}

PROP("P01", "on the surface among several obstacles", "at least one other obstacle within level value 6 and the desired velocity pointing in", 80000, 600000)
{
	Src& s = ctx.s;
	Scene c = scene(s, 1, true);
	const Ell e0 = c.obs[0];
	c.p = gen::at_level(s, e0, s.flag() ? 1 - 1e-6 : gen::uni(s, 0.7, 0.9999), c.margin, c.planar);
	gen::Opt o; o.flat = o.far = true;
	o.planar = c.planar;
	int n = 1 + s.below(4);
	auto names = gen::names(s, n + 1);
	c.obs[0].name = names[n];
	bool near = false;
	for(int i = 0; i < n; ++i)
	{
		Ell x = gen::ellipsoid(s, o, names[i]);
		R g = x.gamma(c.p, c.margin);
		if(g < 1.02L)
		{
			// push it away from the agent, along the line of the centres
			V d = model::unit(x.c - c.p);
			if(norm(d) == 0) d = V(1, 0, 0);
			V shift = dbl((R)gen::uni(s, 4, 8) * d);
			V delta = x.ref - x.c;
			x.c = dbl(x.c + shift);
			x.ref = dbl(x.c + delta);
			g = x.gamma(c.p, c.margin);
			if(g < 1.02L) continue;
		}
		if(g < 6) near = true;
		if(s.flag()) c.obs.push_back(x);
		else c.obs.insert(c.obs.begin(), x);
	}
	describe(ctx, c.p, c.v, c.margin, c.obs);
	model::Part k = model::part(e0, c.p, c.margin);
	if(k.gamma > 1 || !(dot(k.n, k.r) > 0.05L) || k.ncond > 1e-9L) throw pbt::Discard();
	Agent a = agent_at(c.p, c.v, c.margin);
	Environment env = environment(c.obs);
	used_before(ctx, env, a, [&]() { avoid(a, env); });
	V u = M(avoid(a, env));
	R have = dot(k.n, u - k.vs);
	if(near && dot(k.n, c.v - k.vs) < -1e-3L) ctx.interesting();
	R scale = norm(c.v) + norm(k.vs);
	EXPECT(std::fabs(have) <= 1e-7L * (scale + 1e-3L) / dot(k.n, k.r), "normal component at the surface is " << (double)have << " (avoidance " << u << ")");
}

// ---------------------------------------------------------------- P02
struct Track
{
	std::vector<Ell> e;
	std::vector<std::shared_ptr<Ellipsoid>> o;
	Environment env{false};
	void build()
	{
		for(auto& x : e) { o.push_back(make(x)); env.add_obstacle(o.back()); }
		env.update();
	}
	void advance(R dt)
	{
		for(size_t i = 0; i < e.size(); ++i)
		{
			if(norm(e[i].v) == 0 && norm(e[i].w) == 0) continue;
			R w = norm(e[i].w);
			V rel = e[i].ref - e[i].c;
			e[i].c = dbl(e[i].c + dt * e[i].v);
			if(w > 0)
			{
				Q t = model::about(e[i].w, w * dt);
				e[i].q = dbl(model::unit(model::mul(t, e[i].q)));
				rel = model::rot(t, rel);
			}
			e[i].ref = dbl(e[i].c + rel);
			o[i]->set_position(E(e[i].c));
			o[i]->set_orientation(E(e[i].q));
			o[i]->set_reference_position(E(e[i].ref));
		}
		env.update();
	}
};

static bool apart(const Ell& a, const Ell& b, bool planar, R gap)
{
	if(planar)
	{
		Ell x = a, y = b;
		x.margin = x.margin + V(gap / 2, gap / 2, 0);
		y.margin = y.margin + V(gap / 2, gap / 2, 0);
		V la = x.lengths(), lb = y.lengths();
		if(norm(a.c - b.c) > std::hypot(la.x, la.y) + std::hypot(lb.x, lb.y)) return true;
		return plane::level(x, y.c) > 1 && plane::level(y, x.c) > 1 && plane::least_level(x, y, 120) > 1 && plane::least_level(y, x, 120) > 1;
	}
	// separated along the line of the centres: bounding boxes of the super-ellipsoids as spheres
	auto rad = [](const Ell& e) {
		V l = e.lengths();
		bool round = e.curv.x == 1 && e.curv.y == 1 && e.curv.z == 1;
		return round ? std::max(l.x, std::max(l.y, l.z)) : norm(l);
	};
	return norm(a.c - b.c) > rad(a) + rad(b) + gap;
}

PROP("P02", "simulation never enters", "the agent gets within level value 1.3 of an obstacle while heading for its target", 4000, 40000)
{
	Src& s = ctx.s;
	bool planar = s.flag();
	gen::Opt o;
	o.planar = planar;
	o.spread = 4;
	o.curved = s.chance(1, 3);
	bool moving = s.flag();
	o.moving = moving;
	int n = 1 + s.below(4);
	auto names = gen::names(s, n);
	double margin = agent_margin(s);
	Track t;
	for(int i = 0; i < n; ++i)
	{
		Ell e = gen::ellipsoid(s, o, names[i]);
		for(int k = 0; k < 3; ++k) e.curv[k] = std::min<R>(e.curv[k], 2);
		e.v = dbl((s.chance(1, 4) ? 1 : 0.3L) * e.v);
		e.w = dbl((s.chance(1, 4) ? 1.5L : 0.3L) * e.w);
		V m = e.margin;
		e.margin = m + V(margin, margin, margin); // what the agent keeps clear of
		bool ok = true;
		for(auto& x : t.e)
		{
			Ell y = x;
			y.margin = y.margin + V(margin, margin, margin);
			ok = ok && apart(e, y, planar, 0.35L);
		}
		e.margin = m;
		if(ok) t.e.push_back(e);
	}
	// start outside every obstacle, target anywhere (preferably behind an obstacle)
	V p;
	bool ok = false;
	for(int k = 0; k < 4 && !ok; ++k)
	{
		p = s.chance(3, 4) ? gen::at_level(s, t.e[s.below(t.e.size())], gen::uni(s, 1.02, 8), margin, planar) : gen::point(s, planar, 6);
		ok = true;
		for(auto& e : t.e) ok = ok && e.gamma(p, margin) > 1.01L;
	}
	if(!ok) throw pbt::Discard();
	const Ell& aim = t.e[s.below(t.e.size())];
	V target = s.chance(2, 3) ? dbl(aim.c + (R)gen::uni(s, 0, 3) * (aim.c - p)) : gen::point(s, planar, 8);
	double gain = s.flag() ? 1 : gen::uni(s, 0.2, 3);
	describe(ctx, p, V(), margin, t.e);
	DESC("target " << target << " gain " << gain);
	t.build();
	Agent a(margin);
	R lmin = 1e30L;
	for(auto& e : t.e) { V l = e.lengths(margin); lmin = std::min(lmin, std::min(l.x, std::min(l.y, l.z))); }
	int steps = ctx.thorough ? 500 : 260;
	bool close_by = false;
	R least = 1e30L;
	for(int k = 0; k < steps; ++k)
	{
		V d = (R)gain * (target - p);
		if(norm(d) > 4) d = (4 / norm(d)) * d;
		d = dbl(d);
		a.set_position(E(p));
		a.set_linear_velocity(E(d));
		V u = M(avoid(a, t.env));
		R fastest = norm(u);
		for(auto& e : t.e) fastest = std::max(fastest, norm(e.v) + norm(e.w) * std::max<R>(3, norm(e.lengths(margin))));
		R dt = std::min<R>(0.05L, 0.02L * lmin / std::max<R>(fastest, 1e-9L));
		p = dbl(p + dt * u);
		if(moving)
		{
			t.advance(dt);
			if(k % 10 == 0)
				for(size_t i = 0; i < t.e.size(); ++i)
					for(size_t j = i + 1; j < t.e.size(); ++j)
					{
						Ell x = t.e[i], y = t.e[j];
						x.margin = x.margin + V(margin, margin, margin);
						y.margin = y.margin + V(margin, margin, margin);
						if(!apart(x, y, planar, 0.3L)) { steps = k; i = t.e.size() - 1; break; }
					}
		}
		for(auto& e : t.e)
		{
			R g = e.gamma(p, margin);
			least = std::min(least, g);
			if(g < 1.3L) close_by = true;
			EXPECT(g >= 0.98L, "agent is inside '" << e.name << "' after " << k + 1 << " steps: level value " << (double)g << " at " << p << " (last avoidance velocity " << u << ", desired " << d << ")");
		}
		if(norm(target - p) < 1e-3L && !moving) break;
	}
	if(close_by) ctx.interesting();
	ctx.label(planar ? "planar" : "3-D");
	if(moving) ctx.label("moving obstacles");
	if(t.e.size() > 1) ctx.label("several obstacles");
	if(least < 1.05L) ctx.label("came within level value 1.05");
}

// ---------------------------------------------------------------- P03
PROP("P03", "reaches the target", "the straight way to the target crosses the obstacle", 15000, 100000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.moving = false;
	o.curved = false;
	o.spread = 3;
	Ell e = gen::ellipsoid(s, o, "obs");
	double margin = agent_margin(s);
	V p = gen::at_level(s, e, 1.01 + gen::uni(s, 0, 12), margin, true);
	V target = s.chance(2, 3) ? dbl(e.ref + (R)gen::uni(s, 0.3, 2.5) * (e.ref - p)) : gen::point(s, true, 7);
	if(s.chance(1, 2)) target = dbl(target + V(gen::uni(s, -1, 1), gen::uni(s, -1, 1), 0));
	else { R turn = (s.flag() ? 1 : -1) * (R)gen::uni(s, 0.12, 0.6); target = dbl(e.ref + model::rot(model::yaw(turn), target - e.ref)); }
	if(e.gamma(target, margin) < 1.15L) target = gen::at_level(s, e, gen::uni(s, 1.2, 9), margin, true);
	V back = model::unit(e.ref - target), from = model::unit(p - e.ref);
	R off = std::acos(std::max<R>(-1, std::min<R>(1, dot(back, from))));
	if(off < 0.12L) throw pbt::Discard();
	describe(ctx, p, V(), margin, {e});
	DESC("target " << target);
	Environment env = environment(std::vector<Ell>{e});
	Agent a(margin);
	V l = e.lengths(margin);
	R lmin = std::min(l.x, l.y);
	bool blocked = false;
	for(int i = 1; i < 40; ++i) if(e.gamma(p + (i / 40.0L) * (target - p), margin) < 0.9L) blocked = true;
	int limit = 6000, k = 0;
	R d = 0;
	for(; k < limit; ++k)
	{
		V w = target - p;
		d = norm(w);
		if(d < 0.05L) break;
		V des = dbl((1 / std::max<R>(d, 0.5L)) * w);
		a.set_position(E(p));
		a.set_linear_velocity(E(des));
		V u = M(avoid(a, env));
		R sp = norm(u);
		EXPECT(sp > 1e-7L, "stands still at " << p << " level value " << (double)e.gamma(p, margin));
		// steps of fixed length where the flow is slow, so that slow does not look like stuck
		R h = std::min<R>(0.04L * std::min<R>(lmin, 1), 0.3L * d);
		p = dbl(p + (h / sp) * u);
	}
	if(blocked) ctx.interesting();
	ctx.label(blocked ? "blocked straight way" : "free straight way");
	EXPECT(d < 0.05L, "not at the target after " << limit << " steps: distance " << (double)d << ", at " << p);
}

// ---------------------------------------------------------------- P04
static void against_law(Ctx& ctx, const Scene& c, double crit, double power, bool args)
{
	describe(ctx, c.p, c.v, c.margin, c.obs);
	DESC("critical distance " << crit << " power " << power);
	model::Result want = model::avoid(c.p, c.v, c.margin, c.obs, crit, power);
	if(!want.good) { ctx.label(std::string("skipped: ") + want.why); throw pbt::Discard(); }
	Agent a = agent_at(c.p, c.v, c.margin);
	Environment env = environment(c.obs);
	auto ask = [&]() { return args ? Modulation::modulate_velocity(a, env, false, false, false, crit, power) : avoid(a, env); };
	used_before(ctx, env, a, ask);
	V u = M(ask());
	R nr = 1;
	for(auto& e : c.obs) { auto k = model::part(e, c.p, c.margin); nr = std::min(nr, std::fabs(dot(k.n, k.r))); }
	R tol = 2e-6L * (want.scale + 1e-3L) / std::max<R>(nr, 0.01L);
	R dev = norm(want.velocity - c.v);
	if(dev > 1e-2L * norm(c.v)) ctx.interesting();
	ctx.label(c.planar ? "planar" : "3-D");
	ctx.label(c.obs.size() == 1 ? "one obstacle" : "several obstacles");
	EXPECT(close(u, want.velocity, tol), "avoidance velocity " << u << " but the law gives " << want.velocity << " (difference " << (double)norm(u - want.velocity) << ", tolerance " << (double)tol << ")");
}

PROP("P04", "one obstacle", "the law changes the desired velocity by more than 1 percent", 64000, 500000)
{
	against_law(ctx, scene(ctx.s, 1, true), 1, 2, false);
}

PROP("P04", "several obstacles", "the law changes the desired velocity by more than 1 percent", 64000, 500000)
{
	Scene c = scene(ctx.s, 5, true);
	against_law(ctx, c, 1, 2, false);
}

PROP("P04", "critical distance and weight power", "the law changes the desired velocity by more than 1 percent", 48000, 400000)
{
	Scene c = scene(ctx.s, 4, true, false);
	double crit = ctx.s.flag() ? 1 : gen::uni(ctx.s, 0.2, 4);
	double power = ctx.s.flag() ? 2 : ctx.s.chance(1, 4) ? gen::uni(ctx.s, 4, 9) : gen::uni(ctx.s, 0.5, 4);
	against_law(ctx, c, crit, power, true);
}

// ---------------------------------------------------------------- P05
static V result_of(const Scene& c, bool repulsion = false, Ctx* ctx = nullptr)
{
	Agent a = agent_at(c.p, c.v, c.margin);
	Environment env = environment(c.obs);
	if(ctx) used_before(*ctx, env, a, [&]() { Modulation::modulate_velocity(a, env, false, repulsion); });
	return M(repulsion ? Modulation::modulate_velocity(a, env, false, true) : avoid(a, env));
}
static model::Result conditioned(Ctx& ctx, const Scene& c)
{
	model::Result m = model::avoid(c.p, c.v, c.margin, c.obs);
	if(!m.good) { ctx.label(std::string("skipped: ") + m.why); throw pbt::Discard(); }
	return m;
}
// with repulsion as well, unless a level value is at its threshold, or the whole of it next to
// nothing (which is left out)
static bool with_repulsion(Ctx& ctx, const Scene& c, model::Result& m, R unit = 1)
{
	if(!ctx.s.chance(1, 3)) return false;
	V sum;
	for(auto& e : c.obs)
	{
		R g = e.gamma(c.p, c.margin);
		if(std::fabs(g - 1.1L) < 1e-9L || g < 1e-4L) return false;
		if(g < 1.1L) { V r = (1 / g) * (c.p - e.ref); sum = sum + r; m.scale += norm(r) * (1 + 1e-3L / g); }
	}
	if(norm(sum) == 0 || norm(sum) < 1e-3L || unit * norm(sum) < 1e-3L) return false;
	ctx.label("with repulsion");
	return true;
}

PROP("P05", "rigid motion", "the frame is turned and the avoidance differs from the desired velocity by more than 1 percent", 60000, 480000)
{
	Scene c = scene(ctx.s, 4, true);
	model::Result m = conditioned(ctx, c);
	bool rep = with_repulsion(ctx, c, m);
	V shift = gen::point(ctx.s, false, 8);
	Q turn = gen::orientation(ctx.s, ctx.s.chance(1, 3));
	describe(ctx, c.p, c.v, c.margin, c.obs);
	DESC("moved by " << shift << " turned by " << turn);
	Scene d = c;
	auto mv = [&](V x) { return dbl(model::rot(turn, x) + shift); };
	auto tn = [&](V x) { return dbl(model::rot(turn, x)); };
	d.p = mv(c.p);
	d.v = tn(c.v);
	for(auto& e : d.obs)
	{
		e.c = mv(e.c);
		e.ref = mv(e.ref);
		e.v = tn(e.v);
		e.w = tn(e.w);
		e.q = dbl(model::unit(model::mul(turn, e.q)));
	}
	V want = model::rot(turn, result_of(c, rep)), have = result_of(d, rep);
	R tol = 3e-6L * (m.scale + 1e-3L);
	if(norm(m.velocity - c.v) > 1e-2L * norm(c.v) && std::fabs(turn.w) < 0.999L) ctx.interesting();
	ctx.label(c.obs.size() == 1 ? "one obstacle" : "several obstacles");
	EXPECT(close(want, have, tol), "the moved scene gives " << have << ", the moved answer is " << want);
}

PROP("P05", "mirror image", "the avoidance differs from the desired velocity by more than 1 percent", 48000, 360000)
{
	Scene c = scene(ctx.s, 4, true);
	if(!c.planar) throw pbt::Discard();
	model::Result m = conditioned(ctx, c);
	bool rep = with_repulsion(ctx, c, m);
	describe(ctx, c.p, c.v, c.margin, c.obs);
	Scene d = c;
	auto mir = [](V x) { return V(x.x, -x.y, x.z); };
	d.p = mir(c.p);
	d.v = mir(c.v);
	for(auto& e : d.obs)
	{
		e.c = mir(e.c);
		e.ref = mir(e.ref);
		e.v = mir(e.v);
		e.w = V(0, 0, -e.w.z);
		e.q.z = -e.q.z;
	}
	V want = mir(result_of(c, rep)), have = result_of(d, rep);
	if(norm(m.velocity - c.v) > 1e-2L * norm(c.v)) ctx.interesting();
	EXPECT(close(want, have, 3e-6L * (m.scale + 1e-3L)), "the mirrored scene gives " << have << ", the mirrored answer is " << want);
}

PROP("P05", "change of units", "the avoidance differs from the desired velocity by more than 1 percent", 48000, 360000)
{
	Scene c = scene(ctx.s, 4, true);
	model::Result m = conditioned(ctx, c);
	static const double nice[] = {2, 0.5, 10, 0.1};
	R k = ctx.s.flag() ? nice[ctx.s.below(4)] : gen::uni(ctx.s, 0.1, 10);
	k = (double)k;
	bool rep = with_repulsion(ctx, c, m, k);
	describe(ctx, c.p, c.v, c.margin, c.obs);
	DESC("lengths times " << (double)k);
	Scene d = c;
	d.p = dbl(k * c.p);
	d.v = dbl(k * c.v);
	d.margin = (double)(k * c.margin);
	for(auto& e : d.obs)
	{
		e.c = dbl(k * e.c);
		e.ref = dbl(k * e.ref);
		e.v = dbl(k * e.v);
		e.axis = dbl(k * e.axis);
		e.margin = dbl(k * e.margin);
	}
	V want = k * result_of(c, rep), have = result_of(d, rep);
	if(norm(m.velocity - c.v) > 1e-2L * norm(c.v)) ctx.interesting();
	EXPECT(close(want, have, 3e-6L * k * (m.scale + 1e-3L)), "in other units " << have << ", expected " << want);
}

PROP("P05", "names and order", "at least two obstacles share the weight", 48000, 360000)
{
	Scene c = scene(ctx.s, 5, true);
	model::Result m = conditioned(ctx, c);
	bool rep = with_repulsion(ctx, c, m);
	describe(ctx, c.p, c.v, c.margin, c.obs);
	Scene d = c;
	int n = (int)d.obs.size();
	auto names = gen::names(ctx.s, n);
	for(int i = 0; i < n; ++i) d.obs[i].name = names[i];
	for(int i = n - 1; i > 0; --i) std::swap(d.obs[i], d.obs[ctx.s.below(i + 1)]);
	DESC("other names and order: ");
	for(auto& e : d.obs) DESC("'" << e.name << "'");
	V want = result_of(c, rep), have = result_of(d, rep);
	int share = 0;
	for(R w : m.w) if(w > 1e-3L) ++share;
	if(share > 1) ctx.interesting();
	EXPECT(close(want, have, 1e-6L * (m.scale + 1e-3L)), "renamed and reordered scene gives " << have << " instead of " << want);
}

// ---------------------------------------------------------------- P06
static bool envelope_model(Ell& z, V p, V v, double margin)
{
	R m = std::max<R>(0.1L, margin);
	V d = model::unit(v);
	z = Ell();
	z.c = p + 0.5L * d;
	z.axis = V(0.5L * norm(d) + m, m, m);
	z.q = model::yaw(std::atan2(d.y, d.x));
	return true;
}

PROP("P06", "no obstacle", "velocity is not zero", 2000, 30000)
{
	Src& s = ctx.s;
	bool planar = s.flag();
	V p = gen::point(s, planar), v = gen::velocity(s, planar);
	double margin = agent_margin(s);
	describe(ctx, p, v, margin, {});
	Agent a = agent_at(p, v, margin);
	Environment env(s.flag());
	bool ever = s.flag();
	if(ever)
	{
		gen::Opt o;
		Ell e = gen::ellipsoid(s, o, "gone");
		env.add_obstacle(make(e));
		env.update();
		env.remove_obstacle("gone");
		env.update();
		ctx.label("had an obstacle before");
	}
	bool l = s.flag(), r = s.flag(), pl = s.flag();
	Eigen::Vector3d u = Modulation::modulate_velocity(a, env, l, r, pl);
	if(norm(v) > 0) ctx.interesting();
	EXPECT(same_bits(u, E(v)), "avoidance velocity " << M(u) << " differs from the desired velocity");
}

PROP("P06", "local mode", "the zone ahead overlaps an obstacle, or misses it by less than one unit", 12000, 200000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.curved = false;
	int n = 1 + s.below(3);
	std::vector<Ell> obs;
	auto names = gen::names(s, n);
	for(int i = 0; i < n; ++i) obs.push_back(gen::ellipsoid(s, o, names[i]));
	bool grouped = s.chance(1, 12);
	int aim = 0;
	if(grouped)
	{
		// groups of touching obstacles
		R inner;
		V centre;
		if(s.flag()) obs = ring(s, s.flag(), inner, centre);
		else
		{
			n = 2 + s.below(9);
			auto more = gen::names(s, n);
			obs.resize(1);
			obs[0].name = more[0];
			for(int i = 1; i < n; ++i)
			{
				obs.push_back(gen::ellipsoid(s, o, more[i]));
				if(s.chance(4, 5)) next_to(s, obs[s.below(i)], obs[i]);
			}
		}
		for(auto& e : obs) e.ref = e.c;
		aim = s.below(obs.size());
		ctx.label("groups");
	}
	double margin = agent_margin(s);
	V p = gen::at_level(s, obs[aim], s.chance(1, 3) ? gen::uni(s, 1, 3) : gen::outside_level(s), margin, true);
	V v = s.flag() ? dbl((R)gen::uni(s, 0.1, 3) * model::unit(obs[aim].c - p)) : gen::velocity(s, true);
	v.z = 0;
	describe(ctx, p, v, margin, obs);
	Ell z;
	envelope_model(z, p, v, margin);
	bool clear = true, hit = false, near = false;
	for(auto& e : obs)
	{
		if(!plane::disjoint(e, z, 1e-6L)) clear = false;
		// a stretch of the obstacle's outline, wider than two sampling steps, well inside the zone
		if(plane::level(z, e.c) < 0.99L || plane::level(e, z.c) < 0.99L) hit = true;
		int run = 0;
		for(int i = 0; i < 2 * 240 && !hit; ++i)
		{
			// both ways round: either sampling direction has to be enough
			run = plane::level(z, plane::outline(e, 2 * PI * (i % 240) / 240)) < 0.999L ? run + 1 : 0;
			if(run > 10) hit = true;
		}
		if(plane::least_level(e, z, 120) < 8) near = true;
	}
	Agent a = agent_at(p, v, margin);
	// two environments alike: planar mode moves reference points
	Environment env = environment(obs, grouped), env2 = environment(obs, grouped);
	bool rep = s.flag(), pl = s.chance(1, 3);
	double crit = s.chance(3, 4) ? 1 : gen::uni(s, 0.2, 3), power = s.chance(2, 3) ? 2 : gen::uni(s, 0.5, 8);
	if(pl) ctx.label("planar mode");
	Eigen::Vector3d local = Modulation::modulate_velocity(a, env, true, rep, pl, crit, power), global = Modulation::modulate_velocity(a, env2, false, rep, pl, crit, power);
	if(near) ctx.interesting();
	ctx.label(clear ? "clear" : hit ? "zone touches an obstacle" : "too close to call");
	if(clear) EXPECT(same_bits(local, E(v)), "zone ahead is clear but local avoidance is " << M(local));
	else if(hit) EXPECT(same_bits(local, global), "zone ahead touches an obstacle: local " << M(local) << ", global " << M(global));
	else EXPECT(same_bits(local, global) || same_bits(local, E(v)), "local mode gives neither the desired nor the global velocity: " << M(local));
}

PROP("P06", "fading with distance", "level value above 2", 10000, 160000)
{
	Src& s = ctx.s;
	Scene c = scene(s, 1, false);
	if(s.flag()) c.p = gen::at_level(s, c.obs[0], std::exp(gen::uni(s, 0, 14)), c.margin, c.planar);
	describe(ctx, c.p, c.v, c.margin, c.obs);
	model::Part k = model::part(c.obs[0], c.p, c.margin);
	R nr = dot(k.n, k.r);
	if(!(nr > 0.05L) || k.gamma < 1) throw pbt::Discard();
	V u = result_of(c);
	R bound = (1 + 2 / nr) / k.gamma * norm(c.v);
	if(k.gamma > 2 && norm(c.v) > 0) ctx.interesting();
	EXPECT(norm(u - c.v) <= bound * (1 + 1e-6L) + 1e-7L * norm(c.v), "deviation " << (double)norm(u - c.v) << " exceeds " << (double)bound << " at level value " << (double)k.gamma);
}

// ---------------------------------------------------------------- P07
static double wild(Src& s)
{
	static const double v[] = {0, 1, -1, 0.5, 1e-5, 1e-9, 1e-300, 1e6, -1e6, 1e150, 3.0000000001, -2, 1e-4, 100};
	switch(s.below(3))
	{
	case 0: return v[s.below(14)];
	case 1: return gen::uni(s, -3, 3);
	default: return (int)s.below(9) - 4;
	}
}
static Ell wild_ellipsoid(Src& s, const std::string& name)
{
	Ell e;
	e.name = name;
	if(s.flag()) e = gen::ellipsoid(s, gen::Opt(), name);
	if(s.chance(1, 2)) e.c = V(wild(s), wild(s), s.flag() ? 0 : wild(s));
	if(s.chance(1, 2)) e.q = gen::orientation(s, s.flag());
	if(s.chance(1, 2)) e.axis = V(std::fabs(wild(s)), std::fabs(wild(s)), std::fabs(wild(s)));
	if(s.chance(1, 3)) e.margin = V(std::fabs(wild(s)), std::fabs(wild(s)), std::fabs(wild(s)));
	if(s.chance(1, 4)) e.curv = V(1 + s.below(4), 1 + s.below(4), 1 + s.below(4));
	e.ref = e.c;
	if(s.chance(1, 3)) e.ref = V(wild(s), wild(s), wild(s));
	if(s.chance(1, 3)) e.v = V(wild(s), wild(s), wild(s));
	if(s.chance(1, 3)) e.w = V(wild(s), wild(s), wild(s));
	return e;
}

PROP("P07", "any finite scene", "a degenerate ingredient: agent on a centre or reference point, flat or coincident obstacles, zero or vertical velocity, or huge values", 4400, 40000)
{
	Src& s = ctx.s;
	int n = s.below(6);
	std::vector<Ell> obs;
	auto names = gen::names(s, n);
	for(int i = 0; i < n; ++i)
	{
		Ell e = wild_ellipsoid(s, names[i]);
		if(i > 0 && s.chance(1, 4)) { std::string nm = e.name; e = obs[s.below(i)]; e.name = nm; ctx.label("coincident obstacles"); ctx.interesting(); }
		else if(i > 0 && s.chance(1, 3)) e.c = obs[s.below(i)].c;
		if(e.axis.x < 1e-4L || e.axis.y < 1e-4L || e.axis.z < 1e-4L) { ctx.label("flat obstacle"); ctx.interesting(); }
		obs.push_back(e);
	}
	V p, v;
	switch(n == 0 ? 0 : s.below(6))
	{
	case 0: p = V(wild(s), wild(s), s.flag() ? 0 : wild(s)); break;
	case 1: p = obs[s.below(n)].c; ctx.label("agent on a centre"); ctx.interesting(); break;
	case 2: p = obs[s.below(n)].ref; ctx.label("agent on a reference point"); ctx.interesting(); break;
	case 3: p = dbl(obs[s.below(n)].c + V(-(R)s.below(20), 0, 0)); ctx.label("agent due left of a centre"); break;
	case 4: p = dbl(obs[s.below(n)].c + gen::uni(s, -0.2, 0.2) * V(1, 1, 0)); ctx.label("deep inside"); break;
	default: p = V(gen::uni(s, -5, 5), gen::uni(s, -5, 5), 0);
	}
	switch(s.below(4))
	{
	case 0: v = V(wild(s), wild(s), s.flag() ? 0 : wild(s)); break;
	case 1: v = V(0, 0, 0); ctx.label("zero velocity"); ctx.interesting(); break;
	case 2: v = V(0, 0, s.flag() ? 1 : -1); ctx.label("vertical velocity"); ctx.interesting(); break;
	default: v = gen::velocity(s, true);
	}
	double margin = s.flag() ? 0 : std::fabs(wild(s));
	describe(ctx, p, v, margin, obs);
	bool aggregated = s.flag();
	DESC("aggregated " << aggregated);
	Environment env(aggregated);
	for(auto& o : make(obs)) env.add_obstacle(o);
	env.update();
	if(env.get_obstacle_list().size() < obs.size()) ctx.label("with an aggregate");
	Agent a = agent_at(p, v, margin);
	for(int mode = 0; mode < 8; ++mode)
	{
		bool l = mode & 1, r = mode & 2, pl = mode & 4;
		Eigen::Vector3d u = Modulation::modulate_velocity(a, env, l, r, pl);
		EXPECT(finite(u), "avoidance velocity " << M(u) << " with local " << l << " repulsion " << r << " planar " << pl);
	}
	double crit = s.flag() ? 1 : std::fabs(wild(s)), power = s.flag() ? 2 : gen::uni(s, 0.1, s.flag() ? 5 : 40);
	Eigen::Vector3d u = Modulation::modulate_velocity(a, env, false, s.flag(), false, crit, power);
	EXPECT(finite(u), "avoidance velocity " << M(u) << " with critical distance " << crit << " power " << power);
	// everything one can ask must return
	V q(wild(s), wild(s), wild(s));
	for(auto& o : env.get_obstacle_list())
	{
		o->compute_distance_to_agent(a);
		o->compute_distance_to_point(E(q), std::fabs(wild(s)));
		o->compute_normal_to_agent(a);
		o->point_is_inside(E(q));
		o->point_is_inside(a.get_position());
		o->generate_repulsion(a, 2);
		o->compute_repulsion_vector(a);
		o->get_repulsion_factor(a);
		o->is_closed();
		o->compute_interesection_points(E(p), E(q));
		o->compute_interesection_points(E(p), E(p));
		a.get_envelope().is_intersecting(*o);
		a.in_obstacle(*o);
		for(auto& x : env.get_obstacle_list()) o->is_intersecting(*x);
		o->is_intersecting(env.get_obstacle_list());
		if(s.flag()) o->shift_reference_point(a);
		std::ostringstream os;
		os << *o;
		if(auto el = dynamic_cast<Ellipsoid*>(o.get()))
		{
			el->sample_from_parameterization(2 + s.below(30), s.flag());
			el->area(s.flag());
		}
	}
	a.exist_path(E(q), env.get_obstacle_list());
	std::ostringstream os;
	os << a;
	Agent b(a);
	b.set_position(E(q));
	Agent t = a.transformed(Pose(E(q), E(gen::orientation(s, false))));
	finite(t.get_position());
}

// ---------------------------------------------------------------- P08
PROP("P08", "moving frame of one obstacle", "the obstacle's contribution is above 1 percent of its surface velocity", 128000, 1000000)
{
	Scene c = scene(ctx.s, 1, true);
	Ell& e = c.obs[0];
	if(norm(e.v) == 0 && norm(e.w) == 0) e.v = gen::velocity(ctx.s, c.planar);
	if(ctx.s.flag()) e.w = c.planar ? V(0, 0, gen::uni(ctx.s, -2, 2)) : gen::velocity(ctx.s, false);
	describe(ctx, c.p, c.v, c.margin, c.obs);
	model::Part k = model::part(e, c.p, c.margin);
	R nr = dot(k.n, k.r);
	if(!(nr > 0.05L) || k.ncond > 1e-9L) throw pbt::Discard();
	V add = std::exp(1 - std::max<R>(1, k.gamma)) * k.vs;
	V u = result_of(c, false, &ctx);
	Scene rest = c;
	rest.obs[0].v = rest.obs[0].w = V();
	rest.v = dbl(c.v - add);
	V want = result_of(rest) + add;
	R scale = norm(c.v) + norm(add);
	if(norm(add) > 1e-2L * norm(k.vs) && norm(k.vs) > 0) ctx.interesting();
	if(norm(e.w) > 0) ctx.label("turning");
	ctx.label(c.planar ? "planar" : "3-D");
	EXPECT(close(u, want, 2e-6L * (scale + 1e-3L) / nr), "avoidance velocity " << u << ", from the obstacle at rest " << want << " (contribution " << add << ")");
}

PROP("P08", "riding on the surface", "the surface moves at the agent", 48000, 400000)
{
	Src& s = ctx.s;
	Scene c = scene(s, 1, true);
	const Ell& e = c.obs[0];
	c.p = gen::at_level(s, e, s.flag() ? 1 : gen::uni(s, 0.6, 1), c.margin, c.planar);
	V vs = e.surface_velocity(c.p);
	c.v = dbl(vs);
	describe(ctx, c.p, c.v, c.margin, c.obs);
	if(!(dot(e.normal(c.p, c.margin), model::unit(c.p - e.ref)) > 0.05L)) throw pbt::Discard();
	V u = result_of(c, false, &ctx);
	if(norm(vs) > 0.01L) ctx.interesting();
	EXPECT(close(u, vs, 1e-6L * (norm(vs) + 1e-3L)), "wants to move with the surface at " << vs << ", gets " << u);
}

PROP("P08", "several moving obstacles", "two obstacles contribute more than 1 percent each", 64000, 480000)
{
	Src& s = ctx.s;
	Scene c = scene(s, 5, true, false);
	for(auto& e : c.obs)
	{
		if(norm(e.v) == 0) e.v = gen::velocity(s, c.planar);
	}
	describe(ctx, c.p, c.v, c.margin, c.obs);
	model::Result m = conditioned(ctx, c);
	int k = 0;
	for(size_t i = 0; i < c.obs.size(); ++i) if(m.w[i] * std::exp(1 - std::max<R>(1, c.obs[i].gamma(c.p, c.margin))) > 0.01L) ++k;
	if(k > 1) ctx.interesting();
	V u = result_of(c, false, &ctx);
	// the same scene at rest, with the weighted contribution taken out and put back
	Scene rest = c;
	for(auto& e : rest.obs) e.v = e.w = V();
	rest.v = dbl(c.v - m.obstacle_velocity);
	V want = result_of(rest) + m.obstacle_velocity;
	EXPECT(close(u, want, 1e-5L * (m.scale + 1e-3L)), "avoidance velocity " << u << ", from the obstacles at rest " << want << " (contribution " << m.obstacle_velocity << ")");
}

// ---------------------------------------------------------------- P09
PROP("P09", "planar scenes stay planar", "the avoidance changes the velocity by more than 1 percent", 24000, 200000)
{
	Src& s = ctx.s;
	gen::Opt o; o.flat = o.far = true;
	double h = s.flag() ? 0 : gen::coord(s, 5);
	o.z = h;
	std::vector<Ell> obs;
	int n = 1 + s.below(5);
	auto names = gen::names(s, n);
	for(int i = 0; i < n; ++i) obs.push_back(gen::ellipsoid(s, o, names[i]));
	double margin = agent_margin(s);
	V p = gen::at_level(s, obs[0], s.chance(1, 4) ? gen::uni(s, 0.3, 1) : gen::outside_level(s), margin, true);
	p.z = h;
	V v = gen::velocity(s, true);
	describe(ctx, p, v, margin, obs);
	bool aggregated = h == 0 && s.chance(1, 8);
	Environment env = environment(obs, aggregated);
	Agent a = agent_at(p, v, margin);
	bool rep = s.flag(), local = s.chance(1, 4);
	V u = M(Modulation::modulate_velocity(a, env, local, rep));
	if(norm(u - v) > 1e-2L * norm(v)) ctx.interesting();
	if(aggregated) ctx.label("aggregated");
	R scale = norm(v);
	for(auto& e : obs) scale += norm(e.surface_velocity(p));
	EXPECT(std::fabs(u.z) <= 1e-7L * (scale + norm(u) + 1), "avoidance velocity " << u << " leaves the plane");
}

PROP("P09", "over or under", "the line of motion crosses the obstacle and the agent is above or below its centre", 24000, 200000)
{
	Src& s = ctx.s;
	gen::Opt o; o.flat = o.far = true;
	o.moving = false;
	o.z = 0;
	Ell e = gen::ellipsoid(s, o, "obs");
	if(s.flag()) e.c.z = e.ref.z = gen::coord(s, 4);
	double margin = agent_margin(s);
	V p = gen::at_level(s, e, s.flag() ? gen::outside_level(s) : gen::uni(s, 1, 6), margin, true);
	p.z = (double)(e.c.z + (s.chance(1, 3) ? gen::uni(s, -15, 15) : gen::uni(s, -2, 2)));
	if(s.chance(1, 6)) p.z = e.c.z;
	V l = e.lengths();
	// aim at a point of the cross-section
	V aim = e.world(V((R)gen::uni(s, -0.8, 0.8) * l.x, 0, 0));
	V v = s.flag() ? gen::velocity(s, true) : V(aim.x - p.x, aim.y - p.y, 0);
	v.z = 0;
	v = dbl((s.chance(1, 4) ? -1 : 1) * v);
	describe(ctx, p, v, margin, {e});
	if(norm(v) < 1e-3L) throw pbt::Discard();
	// does the line meet the cross-section?
	V y = e.local(p), d = model::rot(model::conj(e.q), v);
	R Aq = d.x * d.x / (l.x * l.x) + d.y * d.y / (l.y * l.y), Bq = y.x * d.x / (l.x * l.x) + y.y * d.y / (l.y * l.y), Cq = y.x * y.x / (l.x * l.x) + y.y * y.y / (l.y * l.y) - 1;
	R disc = Bq * Bq - Aq * Cq;
	if(disc < 1e-6L) throw pbt::Discard();
	V mid = p - (Bq / Aq) * v;
	mid.z = e.c.z;
	Ell sh = e;
	sh.ref = mid;
	model::Part k = model::part(sh, p, margin);
	if(!(std::fabs(dot(k.n, k.r)) > 0.05L)) throw pbt::Discard();
	Environment env = environment(std::vector<Ell>{e});
	Agent a = agent_at(p, v, margin);
	V u = M(Modulation::modulate_velocity(a, env, false, false, true));
	V side = model::unit(model::cross(v, V(0, 0, 1)));
	if(std::fabs(p.z - e.c.z) > 0.05L) ctx.interesting();
	R tol = 1e-6L * (norm(v) + norm(u)) / (std::fabs(dot(k.n, k.r)) * std::min<R>(1, std::sqrt(disc)));
	EXPECT(std::fabs(dot(side, u)) <= tol, "avoidance velocity " << u << " turns sideways by " << (double)dot(side, u));
	V want = model::law(v, {k}).velocity;
	EXPECT(close(u, want, tol * 10), "avoidance velocity " << u << ", the law with the reference point in the middle of the chord gives " << want);
}
