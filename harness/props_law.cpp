// P10-P14: weights, eigenvalues, repulsion, level value, normal, containment
#include "gen.hpp"
using namespace doa;
using model::dot;
using model::norm;

// ---------------------------------------------------------------- P10
PROP("P10", "weights", "at least two obstacles, none below the critical distance, or some but not all", 300000, 2500000)
{
	Src& s = ctx.s;
	int n = s.chance(1, 6) ? 9 + s.below(40) : s.chance(1, 100) ? 0 : 1 + s.below(8);
	double crit = s.flag() ? 1 : gen::uni(s, 0, 5);
	double power = s.flag() ? 2 : s.flag() ? 1 + (int)s.below(4) : gen::uni(s, 0.2, s.chance(1, 4) ? 12 : 5);
	Eigen::ArrayXd d(n);
	bool all_above = s.flag(), wide = s.chance(1, 8); // very near and very far ones, steep powers
	if(wide && s.flag()) power = gen::uni(s, 5, 60);
	for(int i = 0; i < n; ++i)
	{
		if(wide && s.flag()) { d(i) = crit + std::exp(s.flag() ? gen::uni(s, -36, 0) : gen::uni(s, 0, s.flag() ? 60 : 500)); continue; }
		switch(s.below(5))
		{
		case 0: d(i) = crit + (all_above ? 1 : 0) * 0.5; break;
		case 1: d(i) = crit + std::exp(gen::uni(s, -12, 9)); break;
		case 2: d(i) = all_above ? crit + 1 : crit * s.unit(); break;
		case 3: d(i) = i ? d(s.below(i)) : crit + 2; break;
		default: d(i) = crit + gen::uni(s, all_above ? 0.01 : -0.1, 3);
		}
		if(d(i) < 0) d(i) = 0;
	}
	DESC("distances " << d.transpose() << " critical " << crit << " power " << power);
	Eigen::ArrayXd w = Modulation::weight_obstacles(d, crit, power);
	EXPECT(w.size() == n, "size " << w.size());
	if(n == 0) return;
	R sum = 0;
	int critical = 0;
	std::vector<R> dd;
	for(int i = 0; i < n; ++i) { sum += w(i); dd.push_back(d(i)); if(d(i) <= crit) ++critical; }
	if(n > 1 && critical < n) ctx.interesting();
	ctx.label(critical == 0 ? "none critical" : critical == n ? "all critical" : "some critical");
	std::vector<R> want = model::weights(dd, crit, power);
	for(int i = 0; i < n; ++i)
	{
		EXPECT(w(i) >= 0, "weight " << i << " is " << w(i));
		EXPECT(std::fabs(w(i) - (double)want[i]) <= 1e-9, "weight " << i << " is " << w(i) << ", expected " << (double)want[i] << " (all: " << w.transpose() << ")");
		for(int j = 0; j < n; ++j) if(d(j) > d(i)) EXPECT(w(j) <= w(i) * (1 + 1e-12), "the farther obstacle " << j << " weighs " << w(j) << ", the nearer " << i << " only " << w(i));
	}
	EXPECT(std::fabs((double)sum - 1) < 1e-9, "weights sum to " << (double)sum);
}

PROP("P10", "scaling along and across", "level value above 1", 150000, 1250000)
{
	Src& s = ctx.s;
	double d;
	switch(s.below(4))
	{
	case 0: d = s.unit(); break;
	case 1: d = 1; break;
	case 2: d = 1 + std::exp(gen::uni(s, -20, 14)); break;
	default: d = gen::uni(s, 1, 6);
	}
	double rho = s.flag() ? 1 : s.flag() ? 1 + (int)s.below(4) : gen::uni(s, 0.2, s.chance(1, 4) ? 12 : 5);
	bool dflt = s.flag();
	if(dflt) rho = 1;
	DESC("distance " << d << " reactivity " << rho);
	Eigen::Matrix3d m = Eigen::Matrix3d::Identity();
	m = (dflt ? Modulation::compute_diagonal_eigenvalues(d) : Modulation::compute_diagonal_eigenvalues(d, rho)) * m;
	R delta = d <= 1 ? 1 : std::pow((R)d, -1 / (R)rho);
	if(d > 1) ctx.interesting();
	EXPECT(std::fabs(m(0, 0) - (double)(1 - delta)) <= 1e-12, "along: " << m(0, 0) << " expected " << (double)(1 - delta));
	for(int i = 1; i < 3; ++i) EXPECT(std::fabs(m(i, i) - (double)(1 + delta)) <= 1e-12, "across: " << m(i, i) << " expected " << (double)(1 + delta));
	EXPECT(m(0, 1) == 0 && m(1, 0) == 0 && m(2, 1) == 0 && m(1, 2) == 0 && m(0, 2) == 0 && m(2, 0) == 0, "not diagonal");
	EXPECT(d > 1 || m(0, 0) == 0, "moves along the reference direction inside: " << m(0, 0));
}

// ---------------------------------------------------------------- P11
static bool aligned(V a, V b, R tol) { return norm(model::cross(a, b)) <= tol * norm(a) * norm(b) && dot(a, b) > 0; }

PROP("P11", "one ellipsoid", "the agent is below the threshold", 40000, 300000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.planar = s.flag();
	Ell e = gen::ellipsoid(s, o, "obs");
	double margin = s.flag() ? 0 : gen::margin(s);
	double thr = s.flag() ? 1.1 : gen::uni(s, 0.3, 4);
	double g1 = s.chance(1, 6) ? std::exp(gen::uni(s, -12, 0)) : s.flag() ? gen::uni(s, 0.02, 1.3) : thr * (s.flag() ? 1 + std::exp(gen::uni(s, -9, 0)) : 1 - 0.9 * std::exp(gen::uni(s, -9, 0)));
	V p = gen::at_level(s, e, g1, margin, o.planar);
	if(norm(p - e.ref) < 1e-3L) throw pbt::Discard();
	describe(ctx, p, V(), margin, {e});
	DESC("threshold " << thr);
	auto ob = make(e);
	Agent a = agent_at(p, V(1, 0, 0), margin);
	auto ask = [&]() { ob->generate_repulsion(a, thr); ob->compute_repulsion_vector(a); ob->compute_distance_to_agent(a); ob->get_repulsion_factor(a); };
	if(s.flag()) used_before(ctx, *ob, ask);
	else used_before(ctx, a, ask);
	R g = e.gamma(p, margin);
	if(std::fabs(g - thr) < 1e-6L || g < 1e-7L) throw pbt::Discard();
	V rep = M(ob->generate_repulsion(a, thr));
	if(g < thr) ctx.interesting();
	ctx.label(g < thr ? (g < 1 ? "below threshold, inside" : "below threshold, outside") : "above threshold");
	if(g >= thr) { EXPECT(norm(rep) == 0, "repulsion " << rep << " at level value " << (double)g); }
	else
	{
		EXPECT(aligned(rep, p - e.ref, 1e-8L), "repulsion " << rep << " does not point away from the reference point " << e.ref << " (level " << (double)g << ")");
		EXPECT(same_bits(ob->generate_repulsion(a, thr), ob->compute_repulsion_vector(a)), "differs from the plain repulsion vector " << M(ob->compute_repulsion_vector(a)));
		// another point, closer or further
		V q = gen::at_level(s, e, (double)g * gen::uni(s, 0.2, 0.95), margin, o.planar);
		R h = e.gamma(q, margin);
		if(norm(q - e.ref) > 1e-3L && h < 0.98L * g)
		{
			Agent b = agent_at(q, V(1, 0, 0), margin);
			V r2 = M(ob->generate_repulsion(b, thr));
			R gain1 = norm(rep) / norm(p - e.ref), gain2 = norm(r2) / norm(q - e.ref);
			EXPECT(gain2 > gain1, "gain " << (double)gain2 << " at level " << (double)h << " is not above gain " << (double)gain1 << " at level " << (double)g);
		}
	}
	// at the threshold itself there is none, just below it there is
	double own = ob->compute_distance_to_agent(a);
	EXPECT(norm(M(ob->generate_repulsion(a, own))) == 0, "repulsion " << M(ob->generate_repulsion(a, own)) << " at a level value equal to the threshold " << own);
	EXPECT(same_bits(ob->generate_repulsion(a, own * (1 + 1e-9)), ob->compute_repulsion_vector(a)), "no repulsion just below the threshold");
	// the gain asked for scales the factor
	double f = gen::uni(s, 0.5, 30);
	R r1 = ob->get_repulsion_factor(a, f), r2 = ob->get_repulsion_factor(a);
	EXPECT(r1 > 0 && r2 > 0 && std::fabs(r1 * g - f) <= 1e-8L * f, "repulsion factor " << (double)r1 << " for gain " << f << " at level " << (double)g);
}

// overlapping ellipses around one spot
static std::vector<Ell> cluster(Src& s, int n)
{
	gen::Opt o;
	o.curved = false;
	o.spread = 2;
	o.refs = false;
	std::vector<Ell> v;
	for(int i = 0; i < n; ++i)
	{
		Ell e = gen::ellipsoid(s, o, std::string(1, (char)('a' + i)));
		e.v = e.w = V();
		if(i) e.c = dbl(v[0].c + 0.3L * V((R)gen::uni(s, -1, 1) * v[0].axis.x, (R)gen::uni(s, -1, 1) * v[0].axis.y, 0));
		e.ref = e.c;
		v.push_back(e);
	}
	return v;
}

PROP("P11", "aggregates", "the agent is below the threshold", 1400, 12000)
{
	Src& s = ctx.s;
	std::vector<Ell> es = cluster(s, 2 + s.below(3));
	auto list = make(es);
	Aggregate ag(list);
	V ref = M(ag.get_reference_position());
	double margin = s.flag() ? 0 : gen::margin(s);
	double thr = s.flag() ? 1.1 : gen::uni(s, 0.3, 3);
	describe(ctx, V(), V(), margin, es);
	DESC("threshold " << thr);
	for(int k = 0; k < 12; ++k)
	{
		V p = dbl(ref + (R)gen::uni(s, 0.05, 5) * gen::direction(s, true));
		if(norm(p - ref) < 1e-3L) continue;
		Agent a = agent_at(p, V(1, 0, 0), margin);
		R g = ag.compute_distance_to_agent(a);
		if(std::fabs(g - thr) < 1e-6L) continue;
		V rep = M(ag.generate_repulsion(a, thr));
		bool in = ag.point_is_inside(E(p));
		if(g >= thr) { EXPECT(norm(rep) == 0, "repulsion " << rep << " at level value " << (double)g); continue; }
		ctx.interesting();
		ctx.label(in ? "inside" : "outside");
		EXPECT(norm(M(ag.generate_repulsion(a, (double)g))) == 0, "repulsion at a level value equal to the threshold");
		V away = p - ref;
		EXPECT(aligned(in ? (R)-1 * rep : rep, away, 1e-8L), "repulsion " << rep << " at " << p << ", which is " << (in ? "inside" : "outside") << "; reference point " << ref);
	}
}

PROP("P11", "repulsion switched on", "at least one obstacle below the threshold", 24000, 200000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.far = true;
	o.planar = s.flag();
	bool grouped = s.chance(1, 40);
	if(grouped) { o.planar = true; o.curved = false; }
	int n = 1 + s.below(4);
	std::vector<Ell> es;
	auto names = gen::names(s, n);
	for(int i = 0; i < n; ++i)
	{
		Ell e = gen::ellipsoid(s, o, names[i]);
		if(i && s.flag()) { V d = es[0].c - e.c; e.c = dbl(e.c + d); e.ref = dbl(e.ref + d); }
		if(i && grouped && s.chance(3, 4)) { V d = es[0].c + es[0].axis.x * gen::direction(s, true) - e.c; e.c = dbl(e.c + d); e.ref = dbl(e.ref + d); }
		es.push_back(e);
	}
	double margin = s.flag() ? 0 : gen::margin(s);
	V p = gen::at_level(s, es[0], s.flag() ? gen::uni(s, 0.05, 1.12) : gen::outside_level(s), margin, o.planar);
	V v = gen::velocity(s, o.planar);
	describe(ctx, p, v, margin, es);
	Environment env = environment(es, grouped);
	if(grouped && s.flag()) for(auto& ob : env.get_obstacle_list()) if(ob->get_type() == "Aggregate") p = dbl(M(ob->get_reference_position()) + (R)gen::uni(s, 0.05, 4) * gen::direction(s, true));
	if(grouped) for(auto& ob : env.get_obstacle_list()) if(ob->get_type() == "Aggregate") ctx.label("aggregate");
	Agent a = agent_at(p, v, margin);
	used_before(ctx, env, a, [&]() { Modulation::modulate_velocity(a, env, false, false); Modulation::modulate_velocity(a, env, false, true); for(auto& ob : env.get_obstacle_list()) ob->generate_repulsion(a, 1.1); });
	bool planar_mode = s.chance(1, 4);
	if(planar_mode) Modulation::modulate_velocity(a, env, false, false, true); // moves the reference points, once and for all
	V u0 = M(Modulation::modulate_velocity(a, env, false, false, planar_mode)), u1 = M(Modulation::modulate_velocity(a, env, false, true, planar_mode));
	V sum;
	bool any = false;
	for(auto& ob : env.get_obstacle_list())
	{
		R g = ob->compute_distance_to_agent(a);
		if(g < 1e-3L || std::fabs(g - 1.1L) < 1e-9L) throw pbt::Discard();
		if(g < 1.1L) any = true;
		V r = g < 1.1L ? M(ob->compute_repulsion_vector(a)) : V();
		EXPECT(close(r, M(ob->generate_repulsion(a, 1.1)), 1e-12L) && same_bits(ob->generate_repulsion(a, 1.1), ob->generate_repulsion(a)), "repulsion at threshold 1.1 of '" << ob->get_name() << "' is " << M(ob->generate_repulsion(a, 1.1)) << ", default " << M(ob->generate_repulsion(a)));
		sum = sum + r;
	}
	if(any) ctx.interesting();
	// nothing to compare with when the velocity without repulsion is undefined (returned as zero)
	V zero;
	if(norm(u0 - zero) == 0 && norm(v) > 0)
	{
		bool degenerate = false;
		// planar mode may have moved a reference point onto the agent
		for(auto& e : es)
			for(auto& ob : env.get_obstacle_list())
				if(ob->get_name() == e.name)
				{
					V r = p - M(ob->get_reference_position());
					if(norm(r) < 1e-9L || std::fabs(dot(e.normal(p, margin), model::unit(r))) < 1e-6L) degenerate = true;
				}
		if(degenerate) throw pbt::Discard();
	}
	EXPECT(close(u1, u0 + sum, 1.1e-4L + 1e-8L * (norm(sum) + norm(u0))), "with repulsion " << u1 << ", without " << u0 << ", sum of repulsions " << sum);
}

// ---------------------------------------------------------------- P12
PROP("P12", "value", "the point is not the centre", 320000, 2400000)
{
	Src& s = ctx.s;
	gen::Opt o; o.far = o.flat = o.sharp = o.bare = true;
	o.planar = s.chance(1, 3);
	Ell e = gen::ellipsoid(s, o, "obs");
	V p = s.flag() ? gen::at_level(s, e, std::exp(s.chance(1, 6) ? gen::uni(s, -25, 35) : gen::uni(s, -6, 8)), 0, o.planar) : gen::point(s, false);
	if(s.chance(1, 10)) p = e.c;
	V extra(s.flag() ? 0 : gen::margin(s), s.flag() ? 0 : gen::margin(s), s.flag() ? 0 : gen::margin(s));
	double m = s.flag() ? 0 : gen::uni(s, 0, 2);
	describe(ctx, p, V(), m, {e});
	DESC("extra margin " << extra);
	bool bare = false;
	for(int i = 0; i < 3; ++i)
	{
		if(e.lengths()[i] > 1e-3L) continue;
		bare = true; // a little margin on a bare axis: where it starts to count is not specified
		if((m > 0 && m < 1e-3) || (extra[i] > 0 && extra[i] < 1e-3L)) throw pbt::Discard();
	}
	if(bare) ctx.label("an axis without extent");
	auto ob = make(e);
	const Obstacle& base = *ob;
	if(norm(p - e.c) > 0) ctx.interesting();
	ctx.label(norm(e.curv - V(1, 1, 1)) > 0 ? "curved" : "elliptic");
	R round = 2 * std::max(e.gamma_error(p), e.gamma_error(p, m));
	auto near = [&](R a, R b) { return std::fabs(a - b) <= 1e-9L * std::fabs(b) + round; };
	used_before(ctx, *ob, [&]() { base.compute_distance_to_point(E(p)); base.compute_distance_to_point(E(p), m); base.compute_distance_to_point(E(p), A(extra)); base.compute_distance_to_agent(agent_at(p, V(1, 2, 0), m)); });
	R g0 = e.gamma(p), gm = e.gamma(p, m);
	Ell x = e;
	x.margin = e.margin + extra;
	R gx = x.gamma(p);
	R h0 = base.compute_distance_to_point(E(p)), hz = base.compute_distance_to_point(E(p), 0.0), hm = base.compute_distance_to_point(E(p), m), hx = base.compute_distance_to_point(E(p), A(extra));
	EXPECT(near(h0, g0) && near(hz, g0), "level value " << (double)h0 << ", expected " << (double)g0);
	EXPECT(near(hm, gm), "level value with margin " << (double)hm << ", expected " << (double)gm);
	EXPECT(near(hx, gx), "level value with margins " << (double)hx << ", expected " << (double)gx);
	Agent a = agent_at(p, V(1, 2, 0), m);
	R ha = base.compute_distance_to_agent(a);
	EXPECT(near(ha, gm), "level value for the agent " << (double)ha << ", expected " << (double)gm);
	// metamorphic: more margin or length, less level; further out on the ray, more level
	R t = 1 + std::exp(gen::uni(s, -6, 1));
	R hr = base.compute_distance_to_point(E(dbl(e.c + t * (p - e.c))));
	if(norm(p - e.c) > 1e-6L) EXPECT(hr > h0, "level value falls from " << (double)h0 << " to " << (double)hr << " along a ray from the centre");
	int k = s.below(3);
	Eigen::Array3d ax = A(e.axis);
	ax(k) += gen::uni(s, 0, 2);
	ob->set_axis_lengths(ax);
	R hl = base.compute_distance_to_point(E(p));
	if(!bare) EXPECT(hl <= h0 * (1 + 1e-12L), "level value rises from " << (double)h0 << " to " << (double)hl << " with a longer axis");
	if(!bare) EXPECT(hm <= h0 * (1 + 1e-12L) && hx <= h0 * (1 + 1e-12L), "level value rises with the margin");
	// moving obstacle and point together
	Q turn = gen::orientation(s, false);
	V shift = gen::point(s, false);
	ob->set_axis_lengths(A(e.axis));
	ob->set_pose(Pose(E(dbl(model::rot(turn, e.c) + shift)), E(dbl(model::unit(model::mul(turn, e.q))))));
	R ht = base.compute_distance_to_point(E(dbl(model::rot(turn, p) + shift)));
	EXPECT(std::fabs(ht - h0) <= 1e-6L * (1e-3L + h0) + 10 * round * (1 + norm(shift) / (1e-300L + norm(p) + norm(e.c))), "level value " << (double)ht << " after moving both, " << (double)h0 << " before");
}

PROP("P12", "exact values on the axes", "always", 48000, 240000)
{
	// integers only: the value on an axis is known exactly
	Src& s = ctx.s;
	Ell e;
	e.name = "obs";
	e.c = V((int)s.below(9) - 4, (int)s.below(9) - 4, (int)s.below(9) - 4);
	e.axis = V(1 + s.below(4), 1 + s.below(4), 1 + s.below(4));
	e.margin = V(s.below(3), s.below(3), s.below(3));
	if(s.chance(1, 8)) e.margin = V(s.below(200), s.below(200), s.below(200));
	e.curv = V(1 + s.below(3), 1 + s.below(3), 1 + s.below(3));
	e.ref = e.c;
	int k = s.below(3);
	double m = s.below(3);
	V p = e.c;
	p[k] += (s.flag() ? 1 : -1) * e.lengths(m)[k];
	describe(ctx, p, V(), m, {e});
	ctx.interesting();
	auto ob = make(e);
	Agent a = agent_at(p, V(), m);
	EXPECT(ob->compute_distance_to_agent(a) == 1, "level value at the end of an axis is " << ob->compute_distance_to_agent(a));
	const Obstacle& base = *ob;
	EXPECT(base.compute_distance_to_point(E(e.c)) == 0, "level value at the centre is " << base.compute_distance_to_point(E(e.c)));
}

// ---------------------------------------------------------------- P13
PROP("P13", "normal", "no component of the point in the obstacle's frame is zero", 200000, 1500000)
{
	Src& s = ctx.s;
	gen::Opt o; o.far = o.flat = o.sharp = o.bare = true;
	o.planar = s.chance(1, 3);
	Ell e = gen::ellipsoid(s, o, "obs");
	double m = s.flag() ? 0 : gen::uni(s, 0, 2);
	V p = s.flag() ? gen::at_level(s, e, gen::outside_level(s), m, o.planar) : gen::at_level(s, e, std::exp(s.chance(1, 4) ? gen::uni(s, -35, 30) : gen::uni(s, -4, 6)), m, o.planar);
	describe(ctx, p, V(), m, {e});
	if(e.normal_error(p, m) > 1e-9L || e.normal_error_close(p, m) > 1e-8L) throw pbt::Discard(); // next to a kink of the surface, or at the centre
	auto ob = make(e);
	Agent a = agent_at(p, gen::velocity(s, o.planar), m);
	auto ask = [&]() { ob->compute_normal_to_agent(a); };
	if(s.flag()) used_before(ctx, *ob, ask);
	else used_before(ctx, a, ask);
	V n = M(ob->compute_normal_to_agent(a)), want = e.normal_local(p, m), y = e.local(p);
	if(std::fabs(y.x) > 1e-3L && std::fabs(y.y) > 1e-3L && (o.planar || std::fabs(y.z) > 1e-3L)) ctx.interesting();
	ctx.label(norm(e.curv - V(1, 1, 1)) > 0 ? "curved" : "elliptic");
	EXPECT(std::fabs(norm(n) - 1) < 1e-9L, "normal " << n << " is not a unit vector");
	EXPECT(dot(n, y) > 0, "normal " << n << " points inwards at " << y);
	EXPECT(close(n, want, 1e-7L), "normal " << n << " but the gradient of the level value is along " << want);
}

PROP("P13", "normal is the gradient of the library's own level value", "level value above 0.01", 100000, 750000)
{
	Src& s = ctx.s;
	gen::Opt o; o.far = o.flat = true;
	o.planar = s.chance(1, 3);
	Ell e = gen::ellipsoid(s, o, "obs");
	double m = s.flag() ? 0 : gen::uni(s, 0, 2);
	V p = gen::at_level(s, e, std::exp(gen::uni(s, -2, 3)), m, o.planar);
	describe(ctx, p, V(), m, {e});
	auto ob = make(e);
	Agent a = agent_at(p, V(1, 0, 0), m);
	V n = model::rot(e.q, M(ob->compute_normal_to_agent(a)));
	R g = ob->compute_distance_to_agent(a);
	if(g > 0.01L) ctx.interesting();
	// a small step along any direction orthogonal to the normal changes the level much less than one along it
	V t = model::unit(model::cross(n, gen::direction(s, false)));
	if(norm(t) < 0.5L) throw pbt::Discard();
	R h = 1e-5L * (R)std::min(e.axis.x, std::min(e.axis.y, e.axis.z));
	auto level = [&](V q) { return (R)static_cast<const Obstacle&>(*ob).compute_distance_to_point(E(dbl(q)), m); };
	R along = (level(p + h * n) - level(p - h * n)) / 2, across = (level(p + h * t) - level(p - h * t)) / 2;
	if(along < 1e-9L * g) throw pbt::Discard();
	EXPECT(std::fabs(across) <= 2e-3L * along + 1e-11L * g, "the level value changes by " << (double)across << " across and " << (double)along << " along the normal " << n);
}

PROP("P13", "bases", "the reference direction differs from the normal", 150000, 1250000)
{
	Src& s = ctx.s;
	gen::Opt o; o.far = o.flat = true;
	o.planar = s.chance(1, 3);
	Ell e = gen::ellipsoid(s, o, "obs");
	double m = s.flag() ? 0 : gen::uni(s, 0, 2);
	V p = gen::at_level(s, e, gen::outside_level(s), m, o.planar);
	describe(ctx, p, V(), m, {e});
	auto ob = make(e);
	Agent a = agent_at(p, V(1, 0, 0), m);
	V n = s.flag() ? e.normal_local(p, m) : gen::direction(s, false);
	if(s.chance(1, 4)) n = model::unit(n + (R)std::exp(gen::uni(s, 0, 14)) * V(0, 0, s.flag() ? 1 : -1)); // nearly vertical
	n = dbl(n);
	DESC("normal " << n);
	auto ask = [&]() { Modulation::compute_basis_matrices(E(n), a, *ob); };
	if(s.flag()) used_before(ctx, *ob, ask);
	else used_before(ctx, a, ask);
	auto b = Modulation::compute_basis_matrices(E(n), a, *ob);
	Eigen::Matrix3d ref = b.first, ort = b.second;
	V rd = model::rot(model::conj(e.q), model::unit(p - e.ref));
	if(norm(model::cross(rd, n)) > 1e-3L) ctx.interesting();
	if(std::hypot(n.x, n.y) < 1e-3L) ctx.label("nearly vertical normal");
	EXPECT(close(M(Eigen::Vector3d(ort.col(0))), n, 1e-9L), "first vector of the orthogonal basis is " << M(Eigen::Vector3d(ort.col(0))));
	Eigen::Matrix3d id = ort.transpose() * ort - Eigen::Matrix3d::Identity();
	EXPECT(id.cwiseAbs().maxCoeff() < 1e-8, "orthogonal basis is not orthonormal:\n" << ort);
	EXPECT(close(M(Eigen::Vector3d(ref.col(0))), rd, 1e-8L), "first vector of the reference basis is " << M(Eigen::Vector3d(ref.col(0))) << ", reference direction " << rd);
	V t1 = M(Eigen::Vector3d(ref.col(1))), t2 = M(Eigen::Vector3d(ref.col(2)));
	EXPECT(norm(t1) > 1e-9L && norm(t2) > 1e-9L, "a tangent vanishes: " << t1 << " " << t2);
	EXPECT(std::fabs(dot(t1, n)) <= 1e-8L * norm(t1) && std::fabs(dot(t2, n)) <= 1e-8L * norm(t2), "tangents " << t1 << " " << t2 << " are not orthogonal to the normal " << n);
	EXPECT(norm(model::cross(model::unit(t1), model::unit(t2))) > 1e-3L, "tangents " << t1 << " " << t2 << " are parallel");
}

// ---------------------------------------------------------------- P14
PROP("P14", "ellipsoids", "level value between 0.3 and 3", 120000, 900000)
{
	Src& s = ctx.s;
	gen::Opt o; o.far = o.flat = o.sharp = true;
	o.planar = s.flag();
	Ell e = gen::ellipsoid(s, o, "obs");
	V d = gen::direction(s, true);
	R g = s.flag() ? 1 + (s.flag() ? 1 : -1) * std::exp(gen::uni(s, -16, 0)) : std::exp(gen::uni(s, -5, 4));
	V p = dbl(e.world(e.along_ray(d, std::max<R>(g, 1e-6L)) * d));
	describe(ctx, p, V(), 0, {e});
	g = plane::level(e, p);
	if(std::fabs(g - 1) < 1e-10L) throw pbt::Discard();
	if(g > 0.3L && g < 3) ctx.interesting();
	ctx.label(g <= 1 ? "inside" : "outside");
	if(norm(e.curv - V(1, 1, 1)) > 0) ctx.label("curved");
	auto ob = make(e);
	used_before(ctx, *ob, [&]() { ob->point_is_inside(E(p)); });
	bool in = ob->point_is_inside(E(p));
	EXPECT(in == (g <= 1), "contains " << in << " at level value " << (double)g);
	double own = static_cast<const Obstacle&>(*ob).compute_distance_to_point(E(p));
	if(std::fabs(own - 1) > 1e-6) EXPECT(in == (own <= 1), "contains " << in << " but its own level value is " << own);
	// larger lengths or margins never lose a point
	Ell big = e;
	if(s.flag()) big.axis[s.below(2)] += gen::uni(s, 0, 1);
	else big.margin[s.below(2)] += gen::uni(s, 0, 1);
	EXPECT(!in || make(dbl(big.axis).x > 0 ? big : e)->point_is_inside(E(p)), "lost by growing to " << big);
	// moves with the obstacle
	if(std::fabs(g - 1) > 1e-6L)
	{
		Q turn = gen::orientation(s, o.planar);
		V shift = gen::point(s, o.planar);
		ob->set_pose(Pose(E(dbl(model::rot(turn, e.c) + shift)), E(dbl(model::unit(model::mul(turn, e.q))))));
		EXPECT(ob->point_is_inside(E(dbl(model::rot(turn, p) + shift))) == in, "moved by " << shift << " turned by " << turn << " it no longer says " << in);
	}
}

PROP("P14", "on the boundary", "always", 12000, 60000)
{
	Src& s = ctx.s;
	Ell e;
	e.name = "obs";
	e.c = V((int)s.below(9) - 4, (int)s.below(9) - 4, (int)s.below(3) - 1);
	e.axis = V(1 + s.below(4), 1 + s.below(4), 1 + s.below(4));
	e.margin = V(s.below(3), s.below(3), s.below(3));
	e.curv = V(1 + s.below(3), 1 + s.below(3), 1);
	e.ref = e.c;
	int k = s.below(2);
	V p = e.c, q = e.c;
	R sg = s.flag() ? 1 : -1;
	p[k] += sg * e.lengths()[k];
	q[k] += sg * (e.lengths()[k] + 1.0L / 1024);
	describe(ctx, p, V(), 0, {e});
	ctx.interesting();
	auto ob = make(e);
	EXPECT(ob->point_is_inside(E(p)), "does not contain its boundary point " << p);
	EXPECT(!ob->point_is_inside(E(q)), "contains " << q);
}

PROP("P14", "aggregates contain their members", "some tried point is in a member", 1500, 12000)
{
	Src& s = ctx.s;
	std::vector<Ell> es = cluster(s, 2 + s.below(3));
	if(s.flag())
	{
		// spread them so that the hull does not see everything
		for(size_t i = 1; i < es.size(); ++i) { es[i].c = dbl(es[0].c + (R)gen::uni(s, 0.5, 5) * gen::direction(s, true)); es[i].ref = es[i].c; }
	}
	if(s.chance(1, 3))
	{
		// larger, smaller, or far from the others
		R f = std::exp((R)gen::uni(s, -3, 4)), g = s.flag() ? f : std::exp((R)gen::uni(s, 0, 4));
		for(auto& e : es) { e.c = dbl(g * e.c); e.ref = e.c; e.axis = dbl(f * e.axis); e.margin = dbl(f * e.margin); }
	}
	auto list = make(es);
	Aggregate ag(list);
	describe(ctx, V(), V(), 0, es);
	for(int k = 0; k < 30; ++k)
	{
		const Ell& e = es[s.below(es.size())];
		V d = gen::direction(s, true);
		V p = dbl(e.world(e.along_ray(d, gen::uni(s, 0, 1.3)) * d));
		bool any = false;
		for(auto& x : list) any = any || x->point_is_inside(E(p));
		if(any) ctx.interesting();
		if(any) EXPECT(ag.point_is_inside(E(p)), "a member contains " << p << ", the aggregate does not");
	}
}
