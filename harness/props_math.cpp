// P25 poses, P26 numeric helpers
#include "gen.hpp"
#include <set>

using namespace DynamicObstacleAvoidance;
using gen::uni;

// ---------------------------------------------------------------- P25
namespace
{
	struct RP { Q q; V p; }; // reference pose: turn by q, then move by p
	V act(const RP& a, V x) { return model::rot(a.q, x) + a.p; }
	RP mul(const RP& a, const RP& b) { return RP{model::unit(model::mul(a.q, b.q)), act(a, b.p)}; }
	RP inv(const RP& a) { Q c = model::conj(model::unit(a.q)); return RP{c, model::rot(c, (R)-1 * a.p)}; }

	double scale(Src& s)
	{
		switch(s.below(4))
		{
		case 0: return std::exp(uni(s, -25, 12));
		default: return 1;
		}
	}
	V place(Src& s)
	{
		V p = gen::spot(s);
		if(s.chance(1, 4)) return dbl(V(scale(s) * p.x, scale(s) * p.y, scale(s) * p.z)); // each of its own size
		return dbl((R)scale(s) * p);
	}
	// orientations: unit, or of any other length (constructors and setters make them unit)
	Q turn(Src& s)
	{
		Q q;
		switch(s.below(6))
		{
		case 0: q = gen::orientation(s, false); break;
		case 1: q = gen::orientation(s, true); break;
		case 2: q = Q(0, 1, 0, 0); if(s.flag()) q = Q(0, 0, 1, 0); if(s.flag()) q = Q(0, 0, 0, 1); break; // half turns
		case 3: { V a = gen::direction(s, false); q = dbl(model::about(a, std::exp(uni(s, -20, 0)))); break; } // tiny turns
		default: q = dbl(Q(uni(s, -1, 1), uni(s, -1, 1), uni(s, -1, 1), uni(s, -1, 1))); break;
		}
		R n = std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
		if(n < 1e-3L) q = Q();
		if(s.flag()) { double k = s.flag() ? std::exp(uni(s, -6, 6)) : 1 + uni(s, -2e-4, 2e-4); q = dbl(Q(k * q.w, k * q.x, k * q.y, k * q.z)); }
		if(s.flag()) q = Q(-q.w, -q.x, -q.y, -q.z);
		return q;
	}
	void check(const Pose& got, const RP& want, int steps, const char* what, R factors = 0)
	{
		const Eigen::Quaterniond& q = got.get_orientation();
		R n = std::sqrt((R)q.w() * q.w() + (R)q.x() * q.x() + (R)q.y() * q.y() + (R)q.z() * q.z());
		EXPECT(std::fabs(n - 1) < 1e-14L * (10 + steps), what << ": orientation " << M(q) << " of length " << (double)n);
		R big = 1 + norm(want.p) + norm(M(got.get_position())) + factors;
		static const V probes[] = {V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(3, -2, 0.5)};
		for(auto& x : probes)
		{
			V a = M(got * E(x)), b = act(want, x);
			EXPECT(close(a, b, 1e-13L * (20 + steps) * big), what << ": the pose takes " << x << " to " << a << ", expected " << b);
		}
	}
	std::string text(const RP& a) { std::ostringstream o; o.precision(17); o << a.p << " " << a.q; return o.str(); }
}

PROP("P25", "every way to build a pose", "orientation that is not the identity", 150000, 1500000)
{
	Src& s = ctx.s;
	V p = place(s);
	Q q = turn(s);
	DESC("position " << p << " orientation " << q);
	if(std::fabs(std::fabs(q.w) - 1) > 1e-6L) ctx.interesting();
	check(Pose(), RP{Q(), V()}, 0, "default pose");
	check(Pose(E(p)), RP{Q(), p}, 0, "pose from a position");
	check(Pose((double)p.x, (double)p.y, (double)p.z), RP{Q(), p}, 0, "pose from three numbers");
	check(Pose(E(p), E(q)), RP{q, p}, 0, "pose from position and orientation");
	check(Pose((double)p.x, (double)p.y, (double)p.z, (double)q.w, (double)q.x, (double)q.y, (double)q.z), RP{q, p}, 0, "pose from seven numbers");
	Pose a(E(p), E(q)), copy(a), set, other(E(gen::point(s, false)), E(turn(s)));
	check(copy, RP{q, p}, 0, "copied pose");
	EXPECT(same_bits(copy.get_position(), a.get_position()) && copy.get_orientation().coeffs() == a.get_orientation().coeffs(), "copied pose differs");
	set.set_orientation(E(q));
	set.set_position(E(p));
	check(set, RP{q, p}, 0, "pose filled by its setters");
	set.set_orientation(E(Q()));
	set.set_position((double)p.x, (double)p.y, (double)p.z);
	check(set, RP{Q(), p}, 0, "pose filled by its setters");
	other = a;
	check(other, RP{q, p}, 0, "assigned pose");
	check(a.inverse(), inv(RP{q, p}), 0, "inverse");
	EXPECT(same_bits(Pose(E(p), E(q)).get_position(), E(p)), "position of a pose");
	// rigid: distances and handedness
	V x = place(s), y = place(s), z = place(s);
	V tx = M(a * E(x)), ty = M(a * E(y)), tz = M(a * E(z));
	R big = 1 + norm(p) + norm(x) + norm(y) + norm(z);
	EXPECT(std::fabs(norm(tx - ty) - norm(x - y)) < 1e-13L * 20 * big, "distance between " << x << " and " << y << " becomes " << (double)norm(tx - ty));
	R v0 = dot(model::cross(x - z, y - z), x), v1 = dot(model::cross(tx - tz, ty - tz), tx - M(a * Eigen::Vector3d::Zero()));
	EXPECT(std::fabs(v0 - v1) < 1e-12L * big * big * big, "signed volume " << (double)v0 << " becomes " << (double)v1);
}

PROP("P25", "composition", "three poses that are not the identity", 150000, 1500000)
{
	Src& s = ctx.s;
	RP r[3];
	Pose a[3];
	int turned = 0;
	for(int i = 0; i < 3; ++i)
	{
		r[i].p = place(s);
		r[i].q = turn(s);
		a[i] = Pose(E(r[i].p), E(r[i].q));
		DESC("pose " << text(r[i]));
		if(std::fabs(std::fabs(model::unit(r[i].q).w) - 1) > 1e-6L) ++turned;
	}
	if(turned == 3) ctx.interesting();
	R all = 2 * (norm(r[0].p) + norm(r[1].p) + norm(r[2].p));
	check(a[0] * a[1], mul(r[0], r[1]), 1, "product", all);
	check((a[0] * a[1]) * a[2], mul(r[0], mul(r[1], r[2])), 2, "product of three, from the left", all);
	check(a[0] * (a[1] * a[2]), mul(mul(r[0], r[1]), r[2]), 2, "product of three, from the right", all);
	check(a[0] * Pose(), r[0], 1, "product with the default pose", all);
	check(Pose() * a[0], r[0], 1, "product with the default pose", all);
	check(a[0] * a[0].inverse(), RP{Q(), V()}, 10, "pose times inverse", all);
	check(a[0].inverse() * a[0], RP{Q(), V()}, 10, "inverse times pose", all);
	check((a[0] * a[1]).inverse(), mul(inv(r[1]), inv(r[0])), 10, "inverse of a product", all);
	check(a[0].inverse().inverse(), r[0], 2, "inverse of the inverse", all);
	Pose in = a[0], &back = (in *= a[1]), plain = a[0] * a[1];
	EXPECT(&back == &in, "in-place composition returns another pose");
	EXPECT(same_bits(in.get_position(), plain.get_position()) && in.get_orientation().coeffs() == plain.get_orientation().coeffs(), "in-place composition differs from plain composition");
	Pose self = a[0];
	self *= self;
	check(self, mul(r[0], r[0]), 2, "pose composed with itself in place", all);
	V x = place(s);
	EXPECT(close(M((a[0] * a[1]) * E(x)), M(a[0] * (a[1] * E(x))), 1e-12L * (1 + norm(x) + norm(r[0].p) + norm(r[1].p))), "a product does not act like its right factor first");
	// the factors are as before
	for(int i = 0; i < 3; ++i) check(a[i], r[i], 0, "factor after the products");
}

PROP("P25", "long chains", "ten or more operations", 36000, 300000)
{
	Src& s = ctx.s;
	RP r{Q(), V()};
	Pose a;
	int n = 1 + s.below(60);
	R far = 1;
	for(int i = 0; i < n; ++i)
	{
		RP b{turn(s), gen::spot(s)};
		Pose pb(E(b.p), E(b.q));
		switch(s.below(5))
		{
		case 0: a *= pb; r = mul(r, b); break;
		case 1: a = a * pb; r = mul(r, b); break;
		case 2: a = pb * a; r = mul(b, r); break;
		case 3: a = a.inverse(); r = inv(r); break;
		default: a.set_orientation(E(b.q)); r.q = b.q; break;
		}
		far = std::max(far, norm(r.p));
		check(a, r, (int)(30 * (i + 1) * far / (1 + norm(r.p))), "chain");
	}
	DESC(n << " operations");
	if(n >= 10) ctx.interesting();
}

PROP("P25", "states", "velocities that are not zero", 120000, 900000)
{
	Src& s = ctx.s;
	V p = place(s), v = gen::velocity(s, false), w = gen::velocity(s, false);
	Q q = turn(s);
	DESC("position " << p << " orientation " << q << " velocities " << v << " " << w);
	if(norm(v) > 0 && norm(w) > 0) ctx.interesting();
	auto is = [&](const State& st, V p1, Q q1, V v1, V w1, const char* what) {
		EXPECT(same_bits(st.get_position(), E(p1)), what << ": position " << M(st.get_position()) << " instead of " << p1);
		EXPECT(same_bits(st.get_linear_velocity(), E(v1)), what << ": linear velocity " << M(st.get_linear_velocity()) << " instead of " << v1);
		EXPECT(same_bits(st.get_angular_velocity(), E(w1)), what << ": angular velocity " << M(st.get_angular_velocity()) << " instead of " << w1);
		check(st.get_pose(), RP{q1, p1}, 0, what);
		check(Pose(st.get_position(), st.get_orientation()), RP{q1, p1}, 0, what);
	};
	is(State(), V(), Q(), V(), V(), "default state");
	is(State(Pose(E(p), E(q))), p, q, V(), V(), "state from a pose");
	is(State((double)p.x, (double)p.y, (double)p.z), p, Q(), V(), V(), "state from three numbers");
	is(State(E(p)), p, Q(), V(), V(), "state from a position");
	is(State(E(p), E(q)), p, q, V(), V(), "state from position and orientation");
	State full(E(p), E(q), E(v), E(w)), copy(full), changed(full);
	is(full, p, q, v, w, "full state");
	is(copy, p, q, v, w, "copied state");
	V p2 = p, v2 = v, w2 = w;
	Q q2 = q;
	int n = s.below(8);
	for(int i = 0; i < n; ++i)
	{
		V x = gen::spot(s);
		switch(s.below(6))
		{
		case 0: changed.set_position(E(x)); p2 = x; break;
		case 1: changed.set_position((double)x.x, (double)x.y, (double)x.z); p2 = x; break;
		case 2: q2 = turn(s); changed.set_orientation(E(q2)); break;
		case 3: changed.set_linear_velocity(E(x)); v2 = x; break;
		case 4: changed.set_angular_velocity(E(x)); w2 = x; break;
		default: q2 = turn(s); p2 = x; changed.set_pose(Pose(E(x), E(q2))); break;
		}
	}
	is(changed, p2, q2, v2, w2, "state after its setters");
	is(full, p, q, v, w, "state a changed one was copied from");
	copy = changed;
	is(copy, p2, q2, v2, w2, "assigned state");
}

// ---------------------------------------------------------------- P26
PROP("P26", "polar form", "points away from the axes", 480000, 4000000)
{
	Src& s = ctx.s;
	V d = s.chance(1, 3) ? gen::direction(s, false) : model::unit(V(uni(s, -1, 1) + 1e-9, uni(s, -1, 1), uni(s, -1, 1)));
	if(s.chance(1, 4)) { V t(std::exp(uni(s, -30, 0)) * (s.flag() ? 1 : -1), std::exp(uni(s, -30, 0)) * (s.flag() ? 1 : -1), s.flag() ? 1 : -1); d = model::unit(t); if(s.flag()) std::swap(d.x, d.z); }
	R r = s.flag() ? 1 : std::exp(uni(s, -50, 50));
	V p = dbl(r * d);
	DESC("point " << p);
	if(norm(p) == 0) throw pbt::Discard();
	if(std::min(std::min(std::fabs(d.x), std::fabs(d.y)), std::fabs(d.z)) > 1e-6L) ctx.interesting();
	V q = M(MathTools::cartesian_to_polar(E(p)));
	EXPECT(std::fabs(q.x - norm(p)) < 1e-14L * norm(p), "radius of " << p << " is " << (double)q.x);
	EXPECT(q.y >= 0 && q.y <= (R)M_PI, "polar angle of " << p << " is " << (double)q.y);
	EXPECT(q.z >= -(R)M_PI && q.z <= (R)M_PI, "azimuth of " << p << " is " << (double)q.z);
	R theta = std::atan2(std::sqrt(p.x * p.x + p.y * p.y), p.z), phi = std::atan2(p.y, p.x);
	EXPECT(std::fabs(q.y - theta) < 4e-8L, "polar angle of " << p << " is " << (double)q.y << " instead of " << (double)theta);
	EXPECT(std::fabs(q.z - phi) < 1e-14L, "azimuth of " << p << " is " << (double)q.z << " instead of " << (double)phi);
	V back = M(MathTools::polar_to_cartesian(E(q)));
	EXPECT(close(back, p, 4e-8L * norm(p)), "there and back again " << p << " is " << back);
	// and from the polar side
	V o = dbl(V(s.flag() ? 1 : std::exp(uni(s, -20, 20)), s.flag() ? M_PI / 2 : uni(s, 0, M_PI), s.flag() ? gen::angle(s) : uni(s, -M_PI, M_PI)));
	V c = M(MathTools::polar_to_cartesian(E(o)));
	V want(o.x * std::sin(o.y) * std::cos(o.z), o.x * std::sin(o.y) * std::sin(o.z), o.x * std::cos(o.y));
	EXPECT(close(c, want, 1e-14L * o.x), "cartesian form of " << o << " is " << c << " instead of " << want);
}

namespace
{
	double value(Src& s)
	{
		switch(s.below(4))
		{
		case 0: return (int)s.below(21) - 10;
		case 1: return uni(s, -10, 10);
		case 2: return (s.flag() ? 1 : -1) * std::exp(uni(s, -30, 30));
		default: return s.flag() ? M_PI : -M_PI;
		}
	}
	int size(Src& s)
	{
		switch(s.below(8))
		{
		case 0: return (int)s.below(4) - 2;
		case 1: return 2;
		case 2: return 3 + (int)s.below(2000);
		default: return 2 + (int)s.below(60);
		}
	}
	bool spaced(const std::vector<double>& v, double a, double b, int n, std::string& why)
	{
		std::ostringstream o;
		o.precision(17);
		if((int)v.size() != n) o << v.size() << " values instead of " << n;
		else if(v.front() != a) o << "starts at " << v.front() << " instead of " << a;
		else if(v.back() != b) o << "ends at " << v.back() << " instead of " << b;
		else
			for(int i = 0; i < n; ++i)
			{
				R want = a + ((R)b - a) * i / (n - 1);
				if(std::fabs(v[i] - want) > 1e-14L * (std::fabs((R)a) + std::fabs((R)b))) { o << "value " << i << " is " << v[i] << " instead of " << (double)want; break; }
			}
		why = o.str();
		return why.empty();
	}
}

PROP("P26", "evenly spaced values", "three values or more", 240000, 2000000)
{
	Src& s = ctx.s;
	double a = value(s), b = s.chance(1, 8) ? a : value(s);
	int n = size(s);
	DESC("from " << a << " to " << b << ", " << n << " values");
	bool refused = false;
	std::vector<double> v;
	try { v = MathTools::linspace(a, b, n); } catch(std::exception* e) { refused = true; delete e; } catch(...) { refused = true; }
	EXPECT(refused == (n < 2), n << " values are " << (refused ? "refused" : "accepted"));
	ctx.label(refused ? "refused" : n == 2 ? "two" : "more");
	std::string why;
	if(!refused) EXPECT(spaced(v, a, b, n, why), why);
	if(n > 2) ctx.interesting();
}

PROP("P26", "grids", "at least two by three", 64000, 600000)
{
	Src& s = ctx.s;
	double a = value(s), b = value(s), c = value(s), d = value(s);
	int n = std::min(size(s), 120), m = std::min(size(s), 120);
	DESC("from (" << a << ", " << c << ") to (" << b << ", " << d << "), " << n << " by " << m);
	bool refused = false;
	std::vector<Eigen::Vector2d> g;
	try { g = MathTools::gridspace({a, c}, {b, d}, {n, m}); } catch(std::exception* e) { refused = true; delete e; } catch(...) { refused = true; }
	EXPECT(refused == (n < 2 || m < 2), n << " by " << m << " values are " << (refused ? "refused" : "accepted"));
	if(refused) return;
	if(n != m) ctx.interesting();
	EXPECT((int)g.size() == n * m, g.size() << " points instead of " << n * m);
	std::vector<double> x, y;
	for(int i = 0; i < n; ++i) x.push_back(g[i * m](0));
	for(int j = 0; j < m; ++j) y.push_back(g[j](1));
	std::string why;
	EXPECT(spaced(x, a, b, n, why), "first coordinate: " << why);
	EXPECT(spaced(y, c, d, m, why), "second coordinate: " << why);
	for(int i = 0; i < n; ++i)
		for(int j = 0; j < m; ++j)
			EXPECT(g[i * m + j](0) == x[i] && g[i * m + j](1) == y[j], "point " << i << ", " << j << " of " << n << " by " << m << " is not on the grid");
}

PROP("P26", "sorting by angle", "not in order at first", 160000, 1200000)
{
	Src& s = ctx.s;
	int n = s.chance(1, 30) ? 40 + s.below(1500) : s.below(40), rows = 2 + s.below(3);
	bool ties = s.flag();
	Eigen::MatrixXd a(rows, n);
	bool sorted = true;
	for(int i = 0; i < n; ++i)
	{
		for(int k = 0; k < rows; ++k) a(k, i) = ties ? (int)s.below(5) - 2 : uni(s, -4, 4);
		if(i && s.chance(1, 6)) { double c = a(1, s.below(i)); a(1, i) = s.flag() ? std::nextafter(c, s.flag() ? 10 : -10) : c + (s.flag() ? 1 : -1) * std::exp(uni(s, -36, -3)); } // next to another
		if(s.chance(1, 30)) a(1, i) = (s.flag() ? 1 : -1) * std::exp(uni(s, -700, 700));
		if(i && a(1, i) < a(1, i - 1)) sorted = false;
	}
	DESC("matrix " << a);
	if(!sorted) ctx.interesting();
	Eigen::MatrixXd b = MathTools::sorted_cols_by_theta(a);
	EXPECT(b.rows() == rows && b.cols() == n, "size " << b.rows() << " by " << b.cols());
	std::multiset<std::vector<double>> ca, cb;
	for(int i = 0; i < n; ++i)
	{
		std::vector<double> x, y;
		for(int k = 0; k < rows; ++k) { x.push_back(a(k, i)); y.push_back(b(k, i)); }
		ca.insert(x);
		cb.insert(y);
		if(i) EXPECT(b(1, i - 1) <= b(1, i), "columns " << i - 1 << " and " << i << " are out of order: " << b(1, i - 1) << ", " << b(1, i));
	}
	EXPECT(ca == cb, "the columns are not those given: " << b);
	if(n > 1)
	{
		Eigen::VectorXd l = a.col(0), r = a.col(n - 1);
		EXPECT(MathTools::compare_theta(l, r) == (l(1) < r(1)), "comparison of angles " << l(1) << " and " << r(1));
	}
}

PROP("P26", "neighbour look-up", "the angle lies between samples or beyond the last", 320000, 2400000)
{
	Src& s = ctx.s;
	int n = 2 + s.below(s.flag() ? 6 : 80);
	unsigned row = s.below(3);
	Eigen::MatrixXd a(3, n);
	std::vector<double> v;
	switch(s.below(3))
	{
	case 0: for(int i = 0; i < n; ++i) v.push_back(-M_PI + i * 2 * M_PI / n); break;
	case 1: for(int i = 0; i < n; ++i) v.push_back(-M_PI + i * 2 * M_PI / (n - 1)); break;
	default: for(int i = 0; i < n; ++i) v.push_back(s.flag() ? uni(s, -M_PI, M_PI) : (int)s.below(7) - 3); std::sort(v.begin(), v.end());
	}
	for(int i = 0; i < n; ++i) for(unsigned k = 0; k < 3; ++k) a(k, i) = k == row ? v[i] : uni(s, -4, 4);
	Eigen::Vector3d p(uni(s, -4, 4), uni(s, -4, 4), uni(s, -4, 4));
	switch(s.below(4))
	{
	case 0: p(row) = v[s.below(n)]; break;
	case 1: p(row) = s.flag() ? M_PI : -M_PI; break;
	case 2: { int i = s.below(n); p(row) = s.flag() ? std::nextafter(v[i], 10) : std::nextafter(v[i], -10); break; }
	default: p(row) = uni(s, -3.5, 3.5);
	}
	int first = -1;
	for(int i = 0; i < n && first < 0; ++i) if(v[i] >= p(row)) first = i;
	DESC(n << " samples, row " << row << ", angle " << p(row));
	ctx.label(first < 0 ? "beyond the last sample" : first == 0 ? "up to the first sample" : first == n - 1 ? "before the last sample" : "in between");
	if(first != 0) ctx.interesting();
	if(first < 0) first = 0;
	auto r = MathTools::find_closest_points(a, p, row);
	EXPECT((int)r.first == first, "first neighbour " << r.first << " instead of " << first << " of " << n);
	EXPECT((int)r.second == (first + 1) % n, "second neighbour " << r.second << " instead of " << (first + 1) % n << " of " << n);
}

PROP("P26", "random values and signs", "two different bounds", 32000, 240000)
{
	Src& s = ctx.s;
	double a = value(s), b = s.flag() ? 0 : value(s), lo = std::min(a, b), hi = std::max(a, b), slack = 1e-15 * (std::fabs(a) + std::fabs(b));
	bool one = b == 0 && s.flag();
	DESC("bounds " << a << " and " << b);
	if(a != b) ctx.interesting();
	srand(s.below(1000000));
	int n = 200, quarter[4] = {0, 0, 0, 0};
	for(int i = 0; i < n; ++i)
	{
		double x = one ? MathTools::rand_float(a) : MathTools::rand_float(a, b);
		EXPECT(x >= lo - slack && x <= hi + slack, x << " is not between " << lo << " and " << hi);
		if(hi > lo) ++quarter[std::max(0, std::min(3, (int)(4 * (x - lo) / (hi - lo))))];
	}
	if(hi - lo > 1e-6 * (std::fabs(lo) + std::fabs(hi))) for(int k = 0; k < 4; ++k) EXPECT(quarter[k] > 0, "no value out of " << n << " in quarter " << k << " between " << lo << " and " << hi);
	double d = s.flag() ? value(s) : s.flag() ? 0.0 : -0.0;
	if(s.chance(1, 4)) d = (s.flag() ? 1 : -1) * std::numeric_limits<double>::denorm_min();
	if(s.chance(1, 4)) d = (s.flag() ? 1 : -1) * std::numeric_limits<double>::infinity();
	EXPECT(MathTools::sign(d) == (d > 0 ? 1 : d < 0 ? -1 : 0), "sign of " << d << " is " << MathTools::sign(d));
	int i = (int)s.below(7) - 3;
	EXPECT(MathTools::sign(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "sign of " << i << " is " << MathTools::sign(i));
	float f = (float)i / 4;
	EXPECT(MathTools::sign(f) == (i > 0 ? 1 : i < 0 ? -1 : 0), "sign of " << f << " is " << MathTools::sign(f));
	int big = s.flag() ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min();
	EXPECT(MathTools::sign(big) == (big > 0 ? 1 : -1), "sign of " << big << " is " << MathTools::sign(big));
}
