// Generators of scenes, and the bridge between the reference model and the library.
#pragma once
#include "engine.hpp"
#include "model.hpp"
#include "DynamicObstacleAvoidance/Agent.hpp"
#include "DynamicObstacleAvoidance/Environment.hpp"
#include "DynamicObstacleAvoidance/Modulation.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Aggregate.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Ellipsoid.hpp"
#include "DynamicObstacleAvoidance/Obstacle/Obstacle.hpp"
#include "DynamicObstacleAvoidance/Obstacle/StarShapeHull.hpp"
#include "DynamicObstacleAvoidance/State/Pose.hpp"
#include "DynamicObstacleAvoidance/State/State.hpp"
#include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
#include "DynamicObstacleAvoidance/Utils/ObstacleGeneration/Aggregation.hpp"

namespace doa = DynamicObstacleAvoidance;
using model::Ell;
using model::PI;
using model::Q;
using model::R;
using model::V;
using pbt::Ctx;
using pbt::Src;

typedef std::shared_ptr<doa::Obstacle> Obs;
typedef std::deque<Obs> ObsList;

// every generated number is a double, so the model and the library see the same value
inline V dbl(V a) { return V((double)a.x, (double)a.y, (double)a.z); }
inline Q dbl(Q a) { return Q((double)a.w, (double)a.x, (double)a.y, (double)a.z); }
inline Eigen::Vector3d E(V a) { return Eigen::Vector3d((double)a.x, (double)a.y, (double)a.z); }
inline Eigen::Array3d A(V a) { return Eigen::Array3d((double)a.x, (double)a.y, (double)a.z); }
inline Eigen::Quaterniond E(Q a) { return Eigen::Quaterniond((double)a.w, (double)a.x, (double)a.y, (double)a.z); }
inline V M(const Eigen::Vector3d& a) { return V(a(0), a(1), a(2)); }
inline V M(const Eigen::Array3d& a) { return V(a(0), a(1), a(2)); }
inline Q M(const Eigen::Quaterniond& a) { return Q(a.w(), a.x(), a.y(), a.z()); }
inline std::ostream& operator<<(std::ostream& o, V a) { return o << "(" << (double)a.x << ", " << (double)a.y << ", " << (double)a.z << ")"; }
inline std::ostream& operator<<(std::ostream& o, Q a) { return o << "[" << (double)a.w << "; " << (double)a.x << ", " << (double)a.y << ", " << (double)a.z << "]"; }
inline std::ostream& operator<<(std::ostream& o, const Ell& e)
{
	return o << "{'" << e.name << "' centre " << e.c << " quat " << e.q << " axes " << e.axis << " margin " << e.margin << " curv " << e.curv << " ref " << e.ref << " vel " << e.v << " angvel " << e.w << (e.how == 1 ? " by setters" : e.how == 2 ? " by setters, opposite quaternion" : e.how == 3 ? " as a copy" : "") << "}";
}
inline bool finite(const Eigen::Vector3d& v) { return std::isfinite(v(0)) && std::isfinite(v(1)) && std::isfinite(v(2)); }
inline bool same_bits(const Eigen::Vector3d& a, const Eigen::Vector3d& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
inline bool close(V a, V b, R tol) { return model::norm(a - b) <= tol; }

namespace gen
{
	inline double uni(Src& s, double a, double b) { return a + (b - a) * s.unit(); }

	// coordinate: a multiple of 1/2, or anything, in [-r, r]
	inline double coord(Src& s, double r = 5)
	{
		if(s.flag()) return uni(s, -r, r);
		int k = (int)(2 * r);
		int v = (int)s.below(2 * k + 1);
		int m = (v + 1) / 2; // 0, 1, -1, 2, -2 ... so that shrinking goes to 0
		return (v % 2 ? m : -m) * 0.5;
	}
	inline V point(Src& s, bool planar, double r = 5) { double x = coord(s, r), y = coord(s, r); return V(x, y, planar ? 0 : coord(s, r)); }
	// any point, the origin more often than by chance
	inline V spot(Src& s) { return s.chance(1, 12) ? V() : point(s, false); }
	inline double length(Src& s)
	{
		static const double nice[] = {1, 2, 0.5, 3, 0.25, 1.5};
		if(s.chance(2, 3)) return uni(s, 0.2, 3);
		return nice[s.below(6)];
	}
	inline double margin(Src& s)
	{
		switch(s.below(4))
		{
		case 0: return 0;
		case 1: return 0.5;
		default: return uni(s, 0, 1);
		}
	}
	inline double angle(Src& s)
	{
		switch(s.below(4))
		{
		case 0: return (double)((int)s.below(8) * PI / 4);
		case 1: return (double)(((int)s.below(13) - 6) * PI / 6);
		default: return uni(s, -3.14159265, 3.14159265);
		}
	}
	inline V direction(Src& s, bool planar)
	{
		if(planar)
		{
			double a = angle(s);
			return dbl(V(std::cos((R)a), std::sin((R)a), 0));
		}
		switch(s.below(4))
		{
		case 0:
		{
			int k = s.below(6);
			V v;
			v[k / 2] = k % 2 ? -1 : 1;
			return v;
		}
		case 1:
		{
			V v((int)s.below(3) - 1, (int)s.below(3) - 1, (int)s.below(3) - 1);
			if(model::norm(v) == 0) v = V(0, 0, 1);
			return dbl(model::unit(v));
		}
		default:
		{
			double z = uni(s, -1, 1), a = uni(s, -3.14159265, 3.14159265), r = std::sqrt(std::max(0.0, 1 - z * z));
			return V(r * std::cos(a), r * std::sin(a), z);
		}
		}
	}
	inline Q orientation(Src& s, bool yaw_only)
	{
		if(yaw_only) return s.chance(3, 4) ? dbl(model::yaw(angle(s))) : Q();
		switch(s.below(5))
		{
		case 0: return Q();
		case 1: return dbl(model::yaw(angle(s)));
		case 2: { int k = s.below(3); V a; a[k] = 1; return dbl(model::about(a, angle(s))); }
		default: { V a = direction(s, false); return dbl(model::about(a, angle(s))); }
		}
	}
	inline V velocity(Src& s, bool planar, double r = 3)
	{
		switch(s.below(9) ? s.below(4) : 9)
		{
		case 9: return dbl((R)(r * std::exp(uni(s, -7, 3))) * direction(s, planar)); // creeping or racing
		case 0: return r >= 1 ? direction(s, planar) : dbl((R)r * direction(s, planar));
		case 1: return V(uni(s, -r, r), uni(s, -r, r), planar ? 0 : uni(s, -r, r));
		case 2: return dbl((R)uni(s, 0.05, r) * direction(s, planar));
		default: { double x = std::min(r, 1.0) * ((int)s.below(5) - 2), y = std::min(r, 1.0) * ((int)s.below(5) - 2); return V(x, y, planar ? 0 : std::min(r, 1.0) * ((int)s.below(5) - 2)); }
		}
	}

	struct Opt
	{
		bool planar = true;     // turned about the vertical only, velocities horizontal
		bool moving = true;
		bool curved = true;
		bool fractional = true; // curvature factors that are not integers
		bool margins = true;
		bool refs = true;       // reference points away from the centre
		bool far = false;       // reference points outside as well
		bool sharp = false;     // curvature factors far from 1
		bool bare = false;      // an axis with neither extent nor margin
		bool flat = false;      // obstacles without extent along an axis but with a margin, tiny and huge ones
		double spread = 5;
		double z = 0;
	};

	inline Ell ellipsoid(Src& s, const Opt& o, const std::string& name)
	{
		Ell e;
		e.name = name;
		e.c = point(s, o.planar, o.spread);
		if(o.planar) e.c.z = o.z;
		e.q = orientation(s, o.planar);
		e.axis = V(length(s), length(s), length(s));
		if(s.chance(1, 8)) e.axis.y = e.axis.x;
		if(s.chance(1, 3)) e.how = 1 + s.below(3);
		if(o.flat && s.chance(1, 6)) e.axis = dbl((R)std::exp(uni(s, -5, 5)) * e.axis);
		if(o.margins && s.chance(2, 3))
		{
			if(s.flag()) { double m = margin(s); e.margin = V(m, m, m); }
			else e.margin = V(margin(s), margin(s), margin(s));
			if(s.chance(1, 12)) e.margin = dbl((R)std::exp(uni(s, 0, 3)) * e.margin); // wide berths
		}
		if(o.curved && s.chance(1, 3))
		{
			e.curv = V(1 + (int)s.below(3), 1 + (int)s.below(3), 1 + (int)s.below(3));
			if(o.fractional && s.flag()) e.curv = V(uni(s, 0.8, 3), uni(s, 0.8, 3), uni(s, 0.8, 3));
		}
		if(o.sharp && s.chance(1, 6))
			for(int k = 0; k < 3; ++k) e.curv[k] = s.flag() ? (double)(1 + s.below(8)) : s.flag() ? uni(s, 0.55, 1) : uni(s, 1, 10);
		if(o.bare && s.chance(1, 8))
		{
			int k = s.below(3);
			e.axis[k] = e.margin[k] = 0;
		}
		else if(o.flat && s.chance(1, 6))
		{
			int k = s.below(3);
			e.axis[k] = s.flag() ? 0 : 1e-5;
			if(e.margin[k] < 0.05) e.margin[k] = uni(s, 0.05, 1);
		}
		e.ref = e.c;
		if(o.refs && s.chance(2, 3))
		{
			V d = direction(s, o.planar);
			R t = e.along_ray(d, o.far && s.chance(1, 8) ? (R)std::exp(uni(s, -0.5, 4)) : (R)uni(s, 0, 0.6));
			e.ref = dbl(e.world(t * d));
			if(o.planar) e.ref.z = e.c.z;
		}
		if(o.moving && s.chance(2, 3))
		{
			e.v = velocity(s, o.planar, 2);
			if(s.flag()) e.w = o.planar ? V(0, 0, uni(s, -2, 2)) : velocity(s, false, 2);
		}
		return e;
	}

	// a point at level value g of the obstacle (margins and extra included)
	inline V at_level(Src& s, const Ell& e, double g, double extra, bool planar)
	{
		V d = direction(s, planar);
		V p = e.world(e.along_ray(d, g, extra) * d);
		if(planar) p.z = e.c.z;
		return dbl(p);
	}
	inline double outside_level(Src& s)
	{
		static const double nice[] = {1, 1.5, 1.01, 2, 4, 1.0001, 1.1, 20};
		if(s.flag()) return nice[s.below(8)];
		return 1 + std::exp(uni(s, -7, 4));
	}

	inline std::string name(Src& s, int i)
	{
		static const char* pool[] = {"a", "b", "obs", "Wall", "z", "obstacle_1", "obstacle_2", "x y", "", "aggregate", "10", "2", "_a", "B/2", "\xc3\xbc", "aggregate_a_b", "$x$", "obs.1"};
		std::string n = pool[s.below(18)];
		return n + (n.size() < 4 && s.flag() ? "" : "#" + std::to_string(i));
	}

	// distinct names for n obstacles, in an order that is not the order of generation
	inline std::vector<std::string> names(Src& s, int n)
	{
		std::vector<std::string> v;
		for(int i = 0; i < n; ++i)
		{
			std::string c = name(s, i);
			while(std::find(v.begin(), v.end(), c) != v.end()) c += "'";
			v.push_back(c);
		}
		return v;
	}
}

inline doa::State state_of(const Ell& e) { return doa::State(E(e.c), E(e.q), E(e.v), E(e.w)); }

inline std::shared_ptr<doa::Ellipsoid> make(const Ell& e)
{
	auto o = std::make_shared<doa::Ellipsoid>(e.name, state_of(e), E(e.ref), A(e.margin));
	o->set_axis_lengths(A(e.axis));
	o->set_curvature_factor(A(e.curv));
	if(e.how == 1 || e.how == 2)
	{
		// the same obstacle through setters, a quaternion and its opposite being the same turn
		o = std::make_shared<doa::Ellipsoid>(e.name, A(e.margin));
		o->set_axis_lengths(A(e.axis));
		o->set_curvature_factor(A(e.curv));
		o->set_linear_velocity(E(e.v));
		o->set_angular_velocity(E(e.w));
		o->set_position(E(e.c));
		Q q = e.how == 1 ? e.q : Q(-e.q.w, -e.q.x, -e.q.y, -e.q.z);
		o->set_orientation(E(q));
		o->set_reference_position(E(e.ref));
	}
	if(e.how == 3) o = std::make_shared<doa::Ellipsoid>(*o);
	return o;
}
inline ObsList make(const std::vector<Ell>& v)
{
	ObsList l;
	for(auto& e : v) l.push_back(make(e));
	return l;
}
inline doa::Environment environment(const ObsList& l, bool aggregated = false)
{
	doa::Environment env(aggregated);
	for(auto& o : l) env.add_obstacle(o);
	env.update();
	return env;
}
inline doa::Environment environment(const std::vector<Ell>& v, bool aggregated = false) { return environment(make(v), aggregated); }
inline doa::Agent agent_at(V p, V v, double margin = 0)
{
	doa::Agent a(margin);
	a.set_position(E(p));
	a.set_linear_velocity(E(v));
	return a;
}
// now and then an obstacle has had one thing different before, and was asked the same then
template<class F> inline void used_before(Ctx& ctx, doa::Ellipsoid& o, F ask)
{
	Src& s = ctx.s;
	if(!s.chance(1, 6)) return;
	Eigen::Vector3d c = o.get_position(), r = o.get_reference_position(), v = o.get_linear_velocity(), w = o.get_angular_velocity();
	Eigen::Quaterniond q = o.get_orientation();
	Eigen::Array3d ax = o.get_axis_lengths(), cu = o.get_curvature_factor();
	int k = s.below(3);
	double by = s.flag() ? gen::uni(s, 0.1, 1.5) : std::exp(gen::uni(s, -14, 0));
	if(s.flag()) by = -by;
	static const char* text[] = {"an axis", "an axis", "its position", "its orientation", "a curvature factor", "its reference point", "its velocity", "its angular velocity"};
	int what = s.below(8);
	DESC("asked before with another value of " << text[what] << " (" << k << " by " << by << ")");
	ctx.label("used before with other data");
	switch(what)
	{
	case 0: case 1: { Eigen::Array3d x = ax; x(k) = x(k) * (1 + 0.6 * by) + (x(k) == 0) * 0.5; o.set_axis_lengths(x); break; }
	case 2: { Eigen::Vector3d x = c; x(k) += by; o.set_position(x); break; }
	case 3: o.set_orientation(E(dbl(model::unit(model::mul(model::yaw(by), M(q)))))); break;
	case 4: { Eigen::Array3d x = cu; x(k) = s.flag() ? x(k) + 1 : x(k) * (1 + 0.3 * std::fabs(by)); o.set_curvature_factor(x); break; }
	case 5: { Eigen::Vector3d x = r; x(k) += by; o.set_reference_position(x); break; }
	case 6: { Eigen::Vector3d x = v; x(k) += by; o.set_linear_velocity(x); break; }
	default: { Eigen::Vector3d x = w; x(k) += by; o.set_angular_velocity(x); }
	}
	ask();
	switch(what)
	{
	case 0: case 1: o.set_axis_lengths(ax); break;
	case 2: o.set_position(c); break;
	case 3: o.set_orientation(q); break;
	case 4: o.set_curvature_factor(cu); break;
	case 5: o.set_reference_position(r); break;
	case 6: o.set_linear_velocity(v); break;
	default: o.set_angular_velocity(w);
	}
}
// the same for an agent
template<class F> inline void used_before(Ctx& ctx, doa::Agent& a, F ask)
{
	Src& s = ctx.s;
	if(!s.chance(1, 6)) return;
	doa::State st = a.get_state();
	double m = a.get_safety_margin(), by = (s.flag() ? 1 : -1) * (s.flag() ? gen::uni(s, 0.1, 1.5) : std::exp(gen::uni(s, -14, 0)));
	int k = s.below(3), what = s.below(5);
	DESC("asked before with another agent (" << what << " " << k << " by " << by << ")");
	ctx.label("agent used before with other data");
	Eigen::Vector3d p = a.get_position(), v = a.get_linear_velocity(), w = a.get_angular_velocity();
	Eigen::Quaterniond q = a.get_orientation();
	switch(what)
	{
	case 0: a.set_safety_margin(m + std::fabs(by)); break;
	case 1: p(k) += by; a.set_position(p); break;
	case 2: v(k) += by; a.set_linear_velocity(v); break;
	case 3: w(k) += by; a.set_angular_velocity(w); break;
	default: a.set_orientation(E(dbl(model::unit(model::mul(model::yaw(by), M(q))))));
	}
	ask();
	a.set_safety_margin(m);
	if(what == 1) a.set_position(st.get_pose().get_position());
	if(what == 2) a.set_linear_velocity(st.get_linear_velocity());
	if(what == 3) a.set_angular_velocity(st.get_angular_velocity());
	if(what == 4) a.set_orientation(q);
}
// ... and for one of the obstacles of an environment, or the agent
template<class F> inline void used_before(Ctx& ctx, const doa::Environment& env, doa::Agent& a, F ask)
{
	if(ctx.s.flag()) return used_before(ctx, a, ask);
	auto& l = env.get_obstacle_list();
	if(l.empty()) return;
	if(auto o = dynamic_cast<doa::Ellipsoid*>(l[ctx.s.below(l.size())].get())) used_before(ctx, *o, ask);
}
inline void describe(Ctx& ctx, V p, V v, double margin, const std::vector<Ell>& obs)
{
	if(!ctx.verbose) return;
	ctx.desc.precision(17);
	ctx.desc << "agent at " << p << " velocity " << v << " margin " << margin << "; ";
	for(auto& e : obs) ctx.desc << e << "; ";
}

// ---- planar footprints: ellipse-like outlines turned about the vertical ----
namespace plane
{
	// outline point of the footprint (with its margin, lengths times f) at parameter t
	inline V outline(const Ell& e, R t, R f = 1)
	{
		V l = e.lengths();
		// super-ellipse |x/a|^2p + |y/b|^2q = 1
		R c = std::cos(t), s = std::sin(t);
		R x = f * l.x * (c < 0 ? -1 : 1) * std::pow(std::fabs(c), 1 / e.curv.x), y = f * l.y * (s < 0 ? -1 : 1) * std::pow(std::fabs(s), 1 / e.curv.y);
		V p = e.world(V(x, y, 0));
		return p;
	}
	// level value of the footprint (vertical coordinate ignored)
	inline R level(const Ell& e, V p, R extra = 0)
	{
		V y = e.local(p), l = e.lengths(extra);
		return std::pow(std::fabs(y.x / l.x), 2 * e.curv.x) + std::pow(std::fabs(y.y / l.y), 2 * e.curv.y);
	}
	// least level value, with respect to b, of the points of a (0 if a contains b's centre or less
	// than 1 if they overlap); fine sampling of a's outline, refined
	inline R least_level(const Ell& a, const Ell& b, int n = 720)
	{
		R best = level(a, b.c) <= 1 ? 0 : 1e30L;
		if(best == 0) return 0;
		int at = 0;
		for(int i = 0; i < n; ++i)
		{
			R g = level(b, outline(a, 2 * PI * i / n));
			if(g < best) { best = g; at = i; }
		}
		R lo = 2 * PI * (at - 1) / n, hi = 2 * PI * (at + 1) / n;
		for(int k = 0; k < 60; ++k)
		{
			R m1 = lo + (hi - lo) / 3, m2 = hi - (hi - lo) / 3;
			if(level(b, outline(a, m1)) < level(b, outline(a, m2))) hi = m2;
			else lo = m1;
		}
		return std::min(best, level(b, outline(a, (lo + hi) / 2)));
	}
	// are the footprints apart? (a's outline outside b, and neither contains the other's centre)
	inline bool disjoint(const Ell& a, const Ell& b, R slack = 1e-9L)
	{
		return level(a, b.c) > 1 + slack && level(b, a.c) > 1 + slack && least_level(a, b) > 1 + slack && least_level(b, a) > 1 + slack;
	}
}
