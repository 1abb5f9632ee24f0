// P22 environment, P23 agents, P27 questions change nothing, P29 constructors
#include "plan.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
#include <cstring>
#include <set>
using namespace doa;
using model::norm;
using gen::uni;

namespace
{
	uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, sizeof u); return u; }
	bool same_number(double a, double b) { return bits(a) == bits(b) || (std::isnan(a) && std::isnan(b)); }
	typedef std::vector<double> Num;
	void put(Num& n, const Eigen::Vector3d& v) { for(int i = 0; i < 3; ++i) n.push_back(v(i)); }
	void put(Num& n, const Eigen::Array3d& v) { for(int i = 0; i < 3; ++i) n.push_back(v(i)); }
	void put(Num& n, const Eigen::Quaterniond& q) { n.push_back(q.w()); n.push_back(q.x()); n.push_back(q.y()); n.push_back(q.z()); }
	void put(Num& n, const Eigen::MatrixXd& m) { n.push_back(m.rows()); n.push_back(m.cols()); for(int j = 0; j < m.cols(); ++j) for(int i = 0; i < m.rows(); ++i) n.push_back(m(i, j)); }
	void put(Num& n, const std::string& s) { n.push_back(s.size()); for(char c : s) n.push_back(c); }
	bool equal(const Num& a, const Num& b)
	{
		if(a.size() != b.size()) return false;
		for(size_t i = 0; i < a.size(); ++i) if(!same_number(a[i], b[i])) return false;
		return true;
	}
	std::string differ(const Num& a, const Num& b)
	{
		std::ostringstream o;
		o.precision(17);
		if(a.size() != b.size()) { o << a.size() << " numbers against " << b.size(); return o.str(); }
		for(size_t i = 0; i < a.size(); ++i) if(!same_number(a[i], b[i])) { o << "number " << i << " of " << a.size() << ": " << a[i] << " against " << b[i]; break; }
		return o.str();
	}
}

// ---------------------------------------------------------------- P22
namespace
{
	const char* NAMES[] = {"a", "b", "c", "b_c", "a_b", "", "aggregate", "aggregate_a_b", "A", "aggregate_a", "d", "e", "f", "a/0", "a_", "_a", "10", "9", "a b", "b_a", "c_d", "aa", "ab", "B", "z1", "z2", "z10", "aggregate_", "_"};
	const int NN = 29;
	struct Dict
	{
		std::map<std::string, Obs> there;
		std::map<Obs, int> cell; // obstacles in one cell overlap, those in different cells are far apart
	};
	void names(const std::exception& e, const std::string& n)
	{
		EXPECT(std::string(e.what()).find(n) != std::string::npos, "the error about '" << n << "' says '" << e.what() << "'");
	}
	bool found(Environment& env, const std::string& n, Obs& o)
	{
		try { o = env[n]; return true; }
		catch(Exceptions::ObstacleNotInEnvironmentException& e) { names(e, n); return false; }
	}
	// refusals are slow (an exception each): a part of the absent names in turn, all of them at the end
	void check_dictionary(Environment& env, const Dict& d, const char* when, int names, int turn)
	{
		for(int i = 0; i < names; ++i)
		{
			if(turn >= 0 && (i + turn) % 4 && !d.there.count(NAMES[i])) continue;
			Obs o;
			bool has = found(env, NAMES[i], o);
			auto it = d.there.find(NAMES[i]);
			if(it != d.there.end())
			{
				EXPECT(has, when << ": '" << NAMES[i] << "' is not found");
				EXPECT(o == it->second, when << ": another object is found under '" << NAMES[i] << "'");
			}
			else if(has)
				EXPECT(env.is_aggregated() && o && o->get_type() == "Aggregate" && o->get_name() == NAMES[i], when << ": '" << NAMES[i] << "' is found although it was not added or was removed");
		}
	}
	void check_list(Environment& env, const Dict& d, bool aggregated)
	{
		std::map<int, std::set<Obs>> groups;
		for(auto& x : d.there) groups[d.cell.at(x.second)].insert(x.second);
		std::set<Obs> seen;
		auto once = [&](const Obs& o) {
			bool present = false;
			for(auto& x : d.there) present |= x.second == o;
			EXPECT(present, "after an update the list holds '" << o->get_name() << "', which is not in the environment");
			EXPECT(seen.insert(o).second, "after an update the list holds '" << o->get_name() << "' twice");
		};
		for(auto& o : env.get_obstacle_list())
		{
			EXPECT(o != nullptr, "a null pointer in the list");
			if(o->get_type() == "Aggregate")
			{
				EXPECT(aggregated, "an aggregate although grouping is off");
				auto& m = static_cast<const Aggregate&>(*o).get_primitives();
				std::set<Obs> members(m.begin(), m.end());
				for(auto& p : m) once(p);
				EXPECT(!m.empty() && groups[d.cell.at(m[0])] == members, "aggregate '" << o->get_name() << "' does not hold exactly the overlapping obstacles");
				if(!d.there.count(o->get_name()))
				{
					Obs f;
					EXPECT(found(env, o->get_name(), f), "aggregate '" << o->get_name() << "' is not found under its name");
					EXPECT(f->get_type() == "Aggregate" && f->get_name() == o->get_name(), "another object is found under the name of aggregate '" << o->get_name() << "'");
				}
			}
			else
			{
				once(o);
				EXPECT(!aggregated || groups[d.cell.at(o)].size() == 1, "'" << o->get_name() << "' overlaps others and is not grouped");
			}
		}
		EXPECT(seen.size() == d.there.size(), "after an update the list holds " << seen.size() << " obstacles of " << d.there.size());
	}
}

PROP("P22", "operation sequences", "a refused operation, a removal and an aggregate met", 2800, 60000)
{
	Src& s = ctx.s;
	bool aggregated = s.chance(2, 3);
	Environment env = s.flag() ? Environment(aggregated) : Environment();
	env.set_aggregated(aggregated);
	Dict d;
	std::vector<Obs> spare; // removed or refused, may come back
	bool refused = false, removed = false, grouped = false, fresh = false, renamed = false;
	auto place = [&](const Obs& o, int cell) {
		o->set_position(10.0 * cell + uni(s, -0.2, 0.2), uni(s, -0.2, 0.2), 0);
		o->set_reference_position(o->get_position());
		d.cell[o] = cell;
	};
	std::unique_ptr<Environment> copy;
	Dict copied;
	EXPECT(env.get_obstacle_list().empty(), "a new environment has obstacles");
	bool many = s.chance(1, 20); // a lot of obstacles
	int n = many ? 30 + s.below(60) : 1 + s.below(30), cells = many ? 12 : 4;
	std::deque<Obs> copied_list;
	for(int k = 0; k < n; ++k)
	{
		std::string name = NAMES[many ? s.below(NN) : s.below(s.flag() ? 5 : 11)];
		std::deque<Obs> before = env.get_obstacle_list();
		Dict old = d;
		bool no = false;
		const char* what = "";
		switch(many && s.chance(1, 3) ? 0 : s.chance(1, 16) ? 11 : s.below(11))
		{
		case 0: case 1: case 2:
		{
			what = "add";
			Obs o;
			if(!spare.empty() && s.chance(1, 4)) { o = spare[s.below(spare.size())]; name = o->get_name(); }
			else
			{
				auto e = std::make_shared<Ellipsoid>(name);
				e->set_axis_lengths(Eigen::Array3d(uni(s, 0.7, 2), uni(s, 0.7, 2), 1));
				o = e;
				place(o, s.below(cells));
			}
			if(!d.cell.count(o)) place(o, s.below(cells));
			DESC("add '" << name << "'");
			no = d.there.count(name) > 0;
			bool threw = false;
			try { env.add_obstacle(o); } catch(Exceptions::ObstacleAlreadyExistsException& e) { threw = true; names(e, name); }
			EXPECT(threw == no, "adding '" << name << "' is " << (threw ? "refused" : "accepted") << ", it is " << (no ? "" : "not ") << "in the environment");
			if(no) { if(std::find(spare.begin(), spare.end(), o) == spare.end() && d.there[name] != o) spare.push_back(o); }
			else { d.there[name] = o; spare.erase(std::remove(spare.begin(), spare.end(), o), spare.end()); fresh = false; }
			break;
		}
		case 3: case 4:
		{
			what = "remove";
			if(s.chance(1, 5) && !before.empty()) name = before[s.below(before.size())]->get_name();
			DESC("remove '" << name << "'");
			no = !d.there.count(name);
			bool threw = false;
			try { env.remove_obstacle(name); } catch(Exceptions::ObstacleNotInEnvironmentException& e) { threw = true; names(e, name); }
			EXPECT(threw == no, "removing '" << name << "' is " << (threw ? "refused" : "accepted") << ", it is " << (no ? "not " : "") << "in the environment");
			if(!no) { spare.push_back(d.there[name]); d.there.erase(name); removed = true; fresh = false; }
			break;
		}
		case 5: case 6: case 7: what = "update"; if(many && s.chance(2, 3)) break; DESC("update"); env.update(); fresh = true; break;
		case 8:
			what = "switch grouping";
			aggregated = s.flag();
			DESC("grouping " << aggregated);
			env.set_aggregated(aggregated);
			EXPECT(env.is_aggregated() == aggregated, "grouping is " << env.is_aggregated());
			fresh = false;
			break;
		case 9:
			what = "move";
			if(!d.there.empty()) { auto it = d.there.begin(); std::advance(it, s.below(d.there.size())); DESC("move '" << it->first << "'"); place(it->second, s.below(cells)); fresh = false; }
			break;
		case 11:
			// found under the name it had when it was added, whatever it is called now
			what = "rename";
			if(!d.there.empty()) { auto it = d.there.begin(); std::advance(it, s.below(d.there.size())); DESC("rename '" << it->first << "' to '" << name << "'"); it->second->set_name(name); renamed |= name != it->first; fresh = false; }
			break;
		default:
			what = "copy";
			DESC("copy");
			copy.reset(new Environment(env));
			copied = d;
			copied_list = env.get_obstacle_list();
			EXPECT(copy->get_obstacle_list() == copied_list && copy->is_aggregated() == aggregated, "a copied environment has another list or grouping");
			break;
		}
		if(no)
		{
			refused = true;
			EXPECT(env.get_obstacle_list() == before && env.is_aggregated() == aggregated, "a refused operation (" << what << " '" << name << "') changed the list of obstacles");
		}
		int turn = k == n - 1 ? -1 : k;
		check_dictionary(env, d, what, many ? NN : 11, turn);
		Obs there;
		if(no) EXPECT(found(env, name, there) == (d.there.count(name) > 0) || (aggregated && there->get_type() == "Aggregate"), what << ": '" << name << "' after a refusal");
		if(fresh)
		{
			check_list(env, d, aggregated);
			for(auto& o : env.get_obstacle_list()) grouped |= o->get_type() == "Aggregate";
		}
		if(what[0] != 'u' || what[1] != 'p') EXPECT(env.get_obstacle_list() == before, "the list of obstacles changed without an update (" << what << " '" << name << "')");
		if(copy)
		{
			check_dictionary(*copy, copied, "in a copied environment", many ? NN : 11, turn);
			EXPECT(copy->get_obstacle_list() == copied_list, "the list of a copied environment changed with the original (" << what << ")");
		}
	}
	if(refused && removed && grouped) ctx.interesting();
	if(renamed) ctx.label("renamed in place");
	ctx.label(std::string(refused ? "refused " : "") + (removed ? "removed " : "") + (grouped ? "grouped" : ""));
}

// ---------------------------------------------------------------- P23
namespace
{
	struct Now { V p, v, w; Q q; double margin = 0; };
	struct RPose { Q q; V p; };

	void check_agent(Src& s, const Agent& a, const Now& n, int steps, const std::string& who)
	{
		R big = 1 + norm(n.p);
		R tol = steps ? 1e-13L * steps * big : 0;
		EXPECT(close(M(a.get_position()), n.p, tol), who << ": position " << M(a.get_position()) << " instead of " << n.p);
		EXPECT(same_bits(a.get_linear_velocity(), E(n.v)), who << ": linear velocity " << M(a.get_linear_velocity()) << " instead of " << n.v);
		EXPECT(same_bits(a.get_angular_velocity(), E(n.w)), who << ": angular velocity " << M(a.get_angular_velocity()) << " instead of " << n.w);
		EXPECT(a.get_safety_margin() == n.margin, who << ": safety margin " << a.get_safety_margin() << " instead of " << n.margin);
		for(V x : {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1)})
			EXPECT(close(M(a.get_orientation() * E(x)), model::rot(n.q, x), 1e-13L * (10 + steps)), who << ": orientation " << M(a.get_orientation()) << " instead of " << n.q);
		EXPECT(same_bits(a.get_state().get_position(), a.get_position()) && same_bits(a.get_state().get_linear_velocity(), a.get_linear_velocity()) && same_bits(a.get_state().get_angular_velocity(), a.get_angular_velocity()) && same_bits(a.get_pose().get_position(), a.get_position()), who << ": state and single values differ");
		EXPECT(a.get_state().get_orientation().coeffs() == a.get_orientation().coeffs() && a.get_pose().get_orientation().coeffs() == a.get_orientation().coeffs(), who << ": state and single values differ");
		// the zone ahead
		R speed = norm(n.v), m = std::max(0.1, n.margin);
		V ahead = speed > 0 ? (1 / speed) * n.v : V();
		Ell e;
		e.c = n.p + (R)0.5L * ahead;
		e.q = model::yaw(std::atan2(ahead.y, ahead.x));
		e.axis = V((R)0.5L * norm(ahead) + m, m, m);
		const Obstacle& z = a.get_envelope();
		EXPECT(close(M(z.get_position()), e.c, 1e-12L * big + tol), who << ": zone ahead centred at " << M(z.get_position()) << " instead of " << e.c);
		EXPECT(close(M(z.get_reference_position()), e.c, 1e-12L * big + tol), who << ": reference point of the zone ahead at " << M(z.get_reference_position()) << " instead of " << e.c);
		for(int k = 0; k < 6; ++k)
		{
			V d = gen::direction(s, false);
			V p = dbl(e.world(e.along_ray(d, k < 4 ? 1.05L : 0.95L) * d));
			R g = e.gamma(p), got = z.compute_distance_to_point(E(p));
			EXPECT(std::fabs(g - got) < 1e-9L * big * big, who << ": level value of the zone ahead at " << p << " is " << (double)got << " instead of " << (double)g << " (position " << n.p << " velocity " << n.v << " margin " << n.margin << ")");
		}
		V behind = dbl(n.p - m * 0.999L * ahead), beyond = dbl(n.p - m * 1.001L * ahead);
		if(std::fabs(ahead.z) < 1e-12L && speed > 0 && big < 1e4L)
			EXPECT(z.point_is_inside(E(behind)) && !z.point_is_inside(E(beyond)), who << ": the zone ahead does not end one safety margin behind the agent");
	}
}

PROP("P23", "agents over time", "two agents or more, changed after one was copied from another", 13500, 150000)
{
	Src& s = ctx.s;
	struct One { std::unique_ptr<Agent> a; Now n; int steps; };
	std::vector<One> all;
	bool copied = false, changed = false;
	auto velocity = [&]() -> V {
		switch(s.below(6))
		{
		case 0: return V();
		case 1: return V(0, 0, s.flag() ? 1 : -2);
		case 2: return dbl((R)std::exp(uni(s, -15, 10)) * gen::direction(s, s.flag()));
		default: return gen::velocity(s, s.flag());
		}
	};
	auto margin = [&]() { return s.chance(1, 8) ? std::exp(uni(s, -4, 4)) : s.chance(1, 4) ? uni(s, 0, 0.2) : s.chance(1, 4) ? 0.1 : gen::margin(s); };
	int n = 1 + s.below(25);
	for(int k = 0; k < n; ++k)
	{
		int op = all.empty() ? s.below(2) : (int)s.below(13);
		V x = gen::point(s, s.flag()), v = velocity(), w = gen::velocity(s, false);
		Q q = gen::orientation(s, s.flag());
		double m = margin();
		int at = all.empty() ? 0 : (int)s.below(all.size());
		if((op == 0 || op == 1 || op == 2 || op == 12) && all.size() > 4) op = 3;
		One* o = all.empty() ? nullptr : &all[at];
		if(((op >= 3 && op <= 9) || op == 12) && s.chance(1, 3))
		{
			// a small change of what is there
			R little = std::exp((R)uni(s, -20, -3));
			x = dbl(o->n.p + little * gen::direction(s, false));
			v = dbl(o->n.v + little * gen::direction(s, false));
			w = dbl(o->n.w + little * gen::direction(s, false));
			q = dbl(model::unit(model::mul(model::about(gen::direction(s, false), little), o->n.q)));
			m = std::max(0.0, o->n.margin + (double)(s.flag() ? little : -little));
			if(op == 9 || op == 12) { x = dbl(little * gen::direction(s, false)); q = dbl(model::about(gen::direction(s, false), little)); }
		}
		if((op == 9 || op == 12) && s.chance(1, 3)) { int only = s.below(3); if(only != 1) x = V(); if(only != 0) q = Q(); } // a turn, a shift or nothing at all
		if(op >= 3 && op != 12 && copied) changed = true;
		switch(op)
		{
		case 0:
		{
			One c;
			DESC("new agent with margin " << m);
			if(s.flag()) { c.a.reset(new Agent()); c.n.margin = 0; }
			else { c.a.reset(new Agent(m)); c.n.margin = m; }
			c.steps = 0;
			all.push_back(std::move(c));
			break;
		}
		case 1:
		{
			One c;
			DESC("new agent at " << x << " " << q << " velocity " << v << " margin " << m);
			if(s.flag()) { c.a.reset(new Agent(State(E(x), E(q), E(v), E(w)), m)); c.n = Now{x, v, w, q, m}; }
			else { c.a.reset(new Agent(State(E(x), E(q)))); c.n = Now{x, V(), V(), q, 0}; }
			c.steps = 0;
			all.push_back(std::move(c));
			break;
		}
		case 2:
		{
			One c;
			DESC("copy of agent " << at);
			c.a.reset(new Agent(*o->a));
			c.n = o->n;
			c.steps = o->steps;
			all.push_back(std::move(c));
			copied = true;
			break;
		}
		case 3: DESC("agent " << at << " to " << x); o->a->set_position(E(x)); o->n.p = x; break;
		case 4: DESC("agent " << at << " turned to " << q); o->a->set_orientation(E(q)); o->n.q = q; break;
		case 5: DESC("agent " << at << " velocity " << v); o->a->set_linear_velocity(E(v)); o->n.v = v; break;
		case 6: DESC("agent " << at << " angular velocity " << w); o->a->set_angular_velocity(E(w)); o->n.w = w; break;
		case 7: DESC("agent " << at << " margin " << m); o->a->set_safety_margin(m); o->n.margin = m; break;
		case 8: DESC("agent " << at << " placed at " << x << " " << q); o->a->set_pose(Pose(E(x), E(q))); o->n.p = x; o->n.q = q; break;
		case 9:
			DESC("agent " << at << " moved by " << x << " " << q);
			o->a->transform(Pose(E(x), E(q)));
			o->n.p = model::rot(q, o->n.p) + x;
			o->n.q = model::unit(model::mul(q, o->n.q));
			o->steps += 10;
			break;
		case 10: case 11:
		{
			int from = s.below(all.size());
			DESC("agent " << at << " assigned from " << from);
			Agent& r = (*o->a = *all[from].a);
			EXPECT(&r == o->a.get(), "assignment returns another agent");
			o->n = all[from].n;
			o->steps = all[from].steps;
			copied = copied || at != from;
			break;
		}
		default:
		{
			One c;
			DESC("agent " << at << " seen from " << x << " " << q);
			c.a.reset(new Agent(o->a->transformed(Pose(E(x), E(q)))));
			c.n = o->n;
			c.n.p = model::rot(q, o->n.p) + x;
			c.n.q = model::unit(model::mul(q, o->n.q));
			c.steps = o->steps + 10;
			all.push_back(std::move(c));
			copied = true;
		}
		}
		for(size_t i = 0; i < all.size(); ++i) check_agent(s, *all[i].a, all[i].n, all[i].steps, "agent " + std::to_string(i));
		for(size_t i = 0; i < all.size(); ++i) for(size_t j = 0; j < i; ++j) EXPECT(&all[i].a->get_envelope() != &all[j].a->get_envelope(), "agents " << j << " and " << i << " share their zone ahead");
		// an agent whose source is gone is as good as before
		if(all.size() > 1 && s.chance(1, 8)) { int gone = s.below(all.size()); DESC("agent " << gone << " deleted"); all.erase(all.begin() + gone); for(size_t i = 0; i < all.size(); ++i) check_agent(s, *all[i].a, all[i].n, all[i].steps, "agent " + std::to_string(i) + " after another was deleted"); }
	}
	if(changed && all.size() > 1) ctx.interesting();
}

// ---------------------------------------------------------------- P27
namespace
{
	void snap(Num& n, const Obstacle& o)
	{
		put(n, o.get_name());
		put(n, o.get_type());
		put(n, o.get_position());
		put(n, o.get_orientation());
		put(n, o.get_linear_velocity());
		put(n, o.get_angular_velocity());
		put(n, o.get_reference_position());
		put(n, o.get_safety_margin());
		if(o.get_type() == "Ellipsoid") { auto& e = static_cast<const Ellipsoid&>(o); put(n, e.get_axis_lengths()); put(n, e.get_curvature_factor()); }
		if(o.get_type() == "Aggregate") for(auto& p : static_cast<const Aggregate&>(o).get_primitives()) snap(n, *p);
	}
	void snap(Num& n, const Agent& a)
	{
		put(n, a.get_position());
		put(n, a.get_orientation());
		put(n, a.get_linear_velocity());
		put(n, a.get_angular_velocity());
		n.push_back(a.get_safety_margin());
		snap(n, a.get_envelope());
	}
	// numbers that a text shows, in order
	std::vector<double> numbers(const std::string& t)
	{
		std::vector<double> r;
		const char* c = t.c_str();
		while(*c)
		{
			char* end;
			bool sign = (*c == '-' || *c == '+');
			if(std::isdigit((unsigned char)*c) || ((sign || *c == '.') && (std::isdigit((unsigned char)c[1]) || c[1] == '.')))
			{
				double d = std::strtod(c, &end);
				if(end != c) { r.push_back(d); c = end; continue; }
			}
			++c;
		}
		return r;
	}
	bool shows(const std::vector<double>& in, const Num& want)
	{
		for(size_t i = 0; i + want.size() <= in.size(); ++i)
		{
			bool all = true;
			for(size_t k = 0; k < want.size() && all; ++k) all = std::fabs(in[i + k] - want[k]) <= 6e-6 * std::fabs(want[k]) + 1e-300;
			if(all) return true;
		}
		return false;
	}
	template <typename T> Num three(const T& v) { return Num{v(0), v(1), v(2)}; }
	void check_text(const std::string& t, const State& st, const char* what)
	{
		auto n = numbers(t);
		auto q = st.get_orientation();
		EXPECT(shows(n, three(st.get_position())), what << " does not show its position " << M(st.get_position()) << ": " << t);
		EXPECT(shows(n, Num{q.w(), q.x(), q.y(), q.z()}) || shows(n, Num{q.x(), q.y(), q.z(), q.w()}), what << " does not show its orientation " << M(q) << ": " << t);
		EXPECT(shows(n, three(st.get_linear_velocity())), what << " does not show its linear velocity " << M(st.get_linear_velocity()) << ": " << t);
		EXPECT(shows(n, three(st.get_angular_velocity())), what << " does not show its angular velocity " << M(st.get_angular_velocity()) << ": " << t);
	}
	std::string said(const Obstacle& o) { std::ostringstream t; t << o; return t.str(); }
	void check_text(const Obstacle& o)
	{
		std::string t = said(o);
		check_text(t, o.get_state(), "the description of an obstacle");
		auto n = numbers(t);
		EXPECT(t.find(o.get_name()) != std::string::npos, "the description of '" << o.get_name() << "' does not name it: " << t);
		EXPECT(t.find(o.get_type()) != std::string::npos, "the description of '" << o.get_name() << "' does not tell its type: " << t);
		EXPECT(shows(n, three(o.get_reference_position())), "the description of '" << o.get_name() << "' does not show its reference point " << M(o.get_reference_position()) << ": " << t);
		EXPECT(shows(n, three(o.get_safety_margin())), "the description of '" << o.get_name() << "' does not show its margin " << M(o.get_safety_margin()) << ": " << t);
		if(o.get_type() == "Ellipsoid")
		{
			auto& e = static_cast<const Ellipsoid&>(o);
			EXPECT(shows(n, three(e.get_axis_lengths())), "the description of '" << o.get_name() << "' does not show its lengths " << M(e.get_axis_lengths()) << ": " << t);
			EXPECT(shows(n, three(e.get_curvature_factor())), "the description of '" << o.get_name() << "' does not show its curvature factors " << M(e.get_curvature_factor()) << ": " << t);
		}
		if(o.get_type() == "Aggregate") for(auto& p : static_cast<const Aggregate&>(o).get_primitives()) EXPECT(t.find(said(*p)) != std::string::npos, "the description of '" << o.get_name() << "' does not describe its member '" << p->get_name() << "': " << t);
	}

	struct Scene
	{
		std::vector<Ell> es;
		ObsList list; // what was put in
		std::unique_ptr<Environment> env;
		std::vector<Agent> agents;
		std::vector<V> points;
		bool aggregated = false;

		void build(std::vector<Ell> e, bool agg, const std::vector<Agent>& a, const std::vector<V>& p)
		{
			es = e;
			aggregated = agg;
			list = make(es);
			env.reset(new Environment(agg));
			for(auto& o : list) env->add_obstacle(o);
			env->update();
			agents = a;
			points = p;
		}
		Num state() const
		{
			Num n;
			n.push_back(env->is_aggregated());
			n.push_back(env->get_obstacle_list().size());
			for(auto& o : env->get_obstacle_list()) { snap(n, *o); }
			for(auto& o : list) snap(n, *o);
			for(auto& a : agents) snap(n, a);
			return n;
		}
	};
	struct Question { int kind, a, o, o2, p, p2; unsigned extra; };

	Num answer(Scene& c, const Question& q)
	{
		Num r;
		Agent& a = c.agents[q.a % c.agents.size()];
		auto& l = c.env->get_obstacle_list();
		Eigen::Vector3d p = E(c.points[q.p % c.points.size()]), p2 = E(c.points[q.p2 % c.points.size()]);
		if(q.kind <= 3) { put(r, Modulation::modulate_velocity(a, *c.env, q.extra & 1, q.extra & 2, false, q.extra & 4 ? (q.extra & 16 ? 1.3 : 1 + 1e-7) : 1.0, q.extra & 8 ? (q.extra & 32 ? 3 : 2 + 1e-7) : 2)); return r; }
		if(q.kind == 4) { r.push_back(a.exist_path(p, l)); return r; }
		if(q.kind == 5) { std::ostringstream t; t << a << a.get_state() << a.get_pose(); put(r, t.str()); return r; }
		if(q.kind == 6) { Num s2; snap(s2, a.transformed(Pose(p, a.get_orientation()))); return s2; }
		if(c.list.empty()) return r;
		Obs o = q.extra & 16 || l.empty() ? c.list[q.o % c.list.size()] : l[q.o % l.size()], o2 = q.extra & 32 ? c.list[q.o2 % c.list.size()] : l[q.o2 % l.size()];
		bool ell = o->get_type() == "Ellipsoid";
		switch(q.kind)
		{
		case 7: r.push_back(o->compute_distance_to_agent(a)); r.push_back(o->compute_distance_to_point(p)); r.push_back(o->compute_distance_to_point(p2, 0.3)); break;
		case 8: put(r, o->compute_normal_to_agent(a)); break;
		case 9: put(r, o->generate_repulsion(a, q.extra & 1 ? 1.1 : 5)); put(r, o->compute_repulsion_vector(a)); r.push_back(o->get_repulsion_factor(a)); break;
		case 10: r.push_back(o->point_is_inside(p)); r.push_back(o->is_closed()); break;
		case 11: r.push_back(o->is_intersecting(*o2)); r.push_back(o->is_intersecting(l)); break;
		case 12: if(ell) { put(r, o->sample_from_parameterization(2 + q.extra % 40, q.extra & 1)); r.push_back(static_cast<Ellipsoid&>(*o).area(q.extra & 2)); } break;
		case 13: if(ell) { auto x = o->compute_interesection_points(p, p2); r.push_back(x.first); if(x.first) { put(r, x.second.first); put(r, x.second.second); } } break;
		case 14: put(r, said(*o)); break;
		case 15: r.push_back(a.in_obstacle(*o)); break;
		case 16: { auto b = Modulation::compute_basis_matrices(o->compute_normal_to_agent(a), a, *o); put(r, Eigen::MatrixXd(b.first)); put(r, Eigen::MatrixXd(b.second)); break; }
		case 17: { auto m = Modulation::compute_modulation_matrix(a, *o); put(r, Eigen::MatrixXd(std::get<0>(m))); put(r, Eigen::MatrixXd(std::get<1>(m))); r.push_back(std::get<2>(m)); break; }
		case 18: { Obs f = (*c.env)[l[q.o % l.size()]->get_name()]; snap(r, *f); break; }
		default:
			try { (*c.env)["no such obstacle"]; r.push_back(1); } catch(Exceptions::ObstacleNotInEnvironmentException&) { r.push_back(0); }
		}
		return r;
	}
	const int KINDS = 20;
	const char* KIND[] = {"avoidance velocity", "avoidance velocity", "avoidance velocity", "avoidance velocity", "path", "description of the agent", "transformed agent", "level value", "normal", "repulsion", "containment", "intersection", "outline and area", "crossings", "description", "agent in obstacle", "basis matrices", "modulation matrix", "look-up", "failed look-up"};
}

PROP("P27", "questions in any order", "two obstacles or more and ten kinds of questions or more", 4000, 50000)
{
	Src& s = ctx.s;
	auto scene = [&](std::vector<Ell>& es, std::vector<Agent>& ag, std::vector<V>& pts, bool& agg) {
		gen::Opt o;
		o.far = true;
		o.planar = s.chance(2, 3);
		o.spread = s.flag() ? 2 : 5;
		agg = o.planar && s.chance(1, 2);
		int n = 1 + s.below(5);
		auto names = gen::names(s, n);
		for(int i = 0; i < n; ++i) es.push_back(gen::ellipsoid(s, o, names[i]));
		int m = 1 + s.below(3);
		for(int i = 0; i < m; ++i) { Agent a(State(E(gen::point(s, o.planar)), E(gen::orientation(s, o.planar)), E(gen::velocity(s, o.planar)), E(gen::velocity(s, false))), gen::margin(s)); ag.push_back(a); }
		for(int i = 0; i < 4; ++i) pts.push_back(gen::point(s, o.planar));
	};
	std::vector<Ell> es, es2;
	std::vector<Agent> ag, ag2;
	std::vector<V> pts, pts2;
	bool agg, agg2;
	scene(es, ag, pts, agg);
	describe(ctx, M(ag[0].get_position()), M(ag[0].get_linear_velocity()), ag[0].get_safety_margin(), es);
	DESC("grouped " << agg);
	Scene a, b, c;
	a.build(es, agg, ag, pts);
	c.build(es, agg, ag, pts);
	if(s.flag())
	{
		// another scene, with the same names, asked in between
		scene(es2, ag2, pts2, agg2);
		for(size_t i = 0; i < es2.size() && i < es.size(); ++i) es2[i].name = es[i].name;
		for(size_t i = es.size(); i < es2.size(); ++i) es2[i].name += "*";
	}
	else
	{
		es2 = es; ag2 = ag; pts2 = pts; agg2 = agg;
		if(s.flag()) { es2[0].axis.x += 0.5; ag2[0].set_safety_margin(ag2[0].get_safety_margin() + 0.2); }
		else
		{
			// all but the same
			double by = std::exp(gen::uni(s, -21, -5));
			for(auto& x : ag2) { if(s.flag()) x.set_position(x.get_position() * (1 + by)); else x.set_linear_velocity(x.get_linear_velocity() * (1 + by)); }
			for(auto& x : pts2) if(s.flag()) x = dbl((R)(1 + by) * x);
			if(s.flag()) es2[s.below(es2.size())].axis.y *= 1 + by;
		}
	}
	b.build(es2, agg2, ag2, pts2);
	std::vector<Question> qs;
	std::set<int> kinds;
	int n = 4 + s.below(24);
	for(int i = 0; i < n; ++i)
	{
		Question q{(int)s.below(KINDS), (int)s.below(8), (int)s.below(8), (int)s.below(8), (int)s.below(4), (int)s.below(4), s.below(64)};
		qs.push_back(q);
		kinds.insert(q.kind);
	}
	if(es.size() > 1 && kinds.size() >= 10) ctx.interesting();
	Num before = a.state();
	std::vector<Num> first;
	for(auto& q : qs)
	{
		first.push_back(answer(a, q));
		Num after = a.state();
		EXPECT(equal(before, after), "asking for " << KIND[q.kind] << " changed the scene: " << differ(before, after));
		if(s.flag()) answer(b, qs[s.below(qs.size())]);
	}
	std::vector<int> order;
	for(int i = 0; i < n; ++i) order.push_back(i);
	for(int i = n - 1; i > 0; --i) std::swap(order[i], order[s.below(i + 1)]);
	for(int i : order)
	{
		Num again = answer(a, qs[i]);
		EXPECT(equal(first[i], again), "asked again for " << KIND[qs[i].kind] << ": " << differ(first[i], again));
		Num other = answer(c, qs[i]);
		EXPECT(equal(first[i], other), "asked for " << KIND[qs[i].kind] << " in an identical scene: " << differ(first[i], other));
	}
	Num last = a.state();
	EXPECT(equal(before, last), "the scene changed: " << differ(before, last));
}

PROP("P27", "descriptions", "turned, moving, with a reference point of its own", 9000, 150000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.far = true;
	o.planar = s.flag();
	Ell e = gen::ellipsoid(s, o, gen::name(s, 1));
	auto ob = make(e);
	DESC(e);
	if(norm(e.v) > 0 && norm(e.ref - e.c) > 0 && std::fabs(e.q.w) < 0.999L) ctx.interesting();
	check_text(*ob);
	Agent a(State(E(e.c), E(e.q), E(e.v), E(e.w)), gen::margin(s));
	auto agent_text = [&]() {
		std::ostringstream t;
		t << a;
		check_text(t.str(), a.get_state(), "the description of an agent");
		EXPECT(shows(numbers(t.str()), Num{a.get_safety_margin()}), "the description of an agent does not show its margin " << a.get_safety_margin() << ": " << t.str());
	};
	agent_text();
	// after changes
	int n = 1 + s.below(4);
	for(int i = 0; i < n; ++i)
	{
		V x = gen::spot(s);
		switch(s.below(8))
		{
		case 0: ob->set_position(E(x)); a.set_position(E(x)); break;
		case 1: { Q q = gen::orientation(s, false); ob->set_orientation(E(q)); a.set_orientation(E(q)); break; }
		case 2: ob->set_linear_velocity(E(x)); a.set_linear_velocity(E(x)); break;
		case 3: ob->set_angular_velocity(E(x)); a.set_angular_velocity(E(x)); break;
		case 4: ob->set_reference_position(E(x)); break;
		case 5: ob->set_name(gen::name(s, 2)); break;
		case 6: ob->set_axis_lengths(A(V(gen::length(s), gen::length(s), gen::length(s)))); a.set_safety_margin(gen::length(s)); break;
		default: ob->set_curvature_factor(A(V(1 + (int)s.below(3), uni(s, 0.8, 3), 1))); break;
		}
		check_text(*ob);
		agent_text();
	}
	if(s.chance(1, 6))
	{
		std::vector<Ell> es;
		gen::Opt po;
		po.spread = 1;
		auto names = gen::names(s, 3);
		for(int i = 0; i < 3; ++i) es.push_back(gen::ellipsoid(s, po, names[i]));
		Aggregate ag(make(es));
		ctx.label("aggregate");
		check_text(ag);
	}
	std::ostringstream p;
	Pose pose(E(e.c), E(e.q));
	p << pose;
	auto q = pose.get_orientation();
	EXPECT(shows(numbers(p.str()), three(pose.get_position())) && (shows(numbers(p.str()), Num{q.w(), q.x(), q.y(), q.z()}) || shows(numbers(p.str()), Num{q.x(), q.y(), q.z(), q.w()})), "description of a pose: " << p.str());
}

// ---------------------------------------------------------------- P29
namespace
{
	Num everything(const Obstacle& o, Ctx&, const std::vector<V>& probes, bool queries)
	{
		Num n;
		snap(n, o);
		if(!queries) return n;
		auto& e = static_cast<const Ellipsoid&>(o);
		for(size_t i = 0; i + 1 < probes.size(); i += 2)
		{
			Agent a = agent_at(probes[i], probes[i + 1], 0.2);
			n.push_back(o.compute_distance_to_agent(a));
			put(n, o.compute_normal_to_agent(a));
			put(n, o.compute_repulsion_vector(a));
			n.push_back(o.point_is_inside(E(probes[i])));
			auto x = const_cast<Obstacle&>(o).compute_interesection_points(E(probes[i]), E(probes[i + 1]));
			n.push_back(x.first);
			if(x.first) { put(n, x.second.first); put(n, x.second.second); }
			auto m = Modulation::compute_modulation_matrix(a, o);
			put(n, Eigen::MatrixXd(std::get<0>(m)));
			put(n, Eigen::MatrixXd(std::get<1>(m)));
			Environment env(false);
			env.add_obstacle(std::make_shared<Ellipsoid>(e));
			env.update();
			put(n, Modulation::modulate_velocity(a, env, false, i == 0));
			n.push_back(a.in_obstacle(o));
		}
		n.push_back(o.is_closed());
		n.push_back(e.area(true));
		n.push_back(e.area(false));
		put(n, o.sample_from_parameterization(17, true));
		put(n, o.sample_from_parameterization(17, false));
		put(n, said(o));
		for(int i = 0; i < 3; ++i) { n.push_back(e.get_axis_lengths(i)); n.push_back(e.get_curvature_factor(i)); }
		return n;
	}
	void is(const Obstacle& o, const Ell& e, const char* type, const char* how)
	{
		EXPECT(o.get_name() == e.name, how << ": named '" << o.get_name() << "' instead of '" << e.name << "'");
		if(type) EXPECT(o.get_type() == type, how << ": of type '" << o.get_type() << "'");
		EXPECT(close(M(o.get_position()), e.c, 0), how << ": position " << M(o.get_position()) << " instead of " << e.c);
		EXPECT(close(M(o.get_reference_position()), e.ref, 0), how << ": reference point " << M(o.get_reference_position()) << " instead of " << e.ref);
		EXPECT(close(M(o.get_linear_velocity()), e.v, 0), how << ": linear velocity " << M(o.get_linear_velocity()) << " instead of " << e.v);
		EXPECT(close(M(o.get_angular_velocity()), e.w, 0), how << ": angular velocity " << M(o.get_angular_velocity()) << " instead of " << e.w);
		EXPECT(close(M(o.get_safety_margin()), e.margin, 0), how << ": margin " << M(o.get_safety_margin()) << " instead of " << e.margin);
		for(V x : {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1)}) EXPECT(close(M(o.get_orientation() * E(x)), model::rot(e.q, x), 1e-14L), how << ": orientation " << M(o.get_orientation()) << " instead of " << e.q);
		if(type && std::string(type) == "Ellipsoid")
		{
			auto& l = static_cast<const Ellipsoid&>(o);
			EXPECT(close(M(l.get_axis_lengths()), e.axis, 0), how << ": lengths " << M(l.get_axis_lengths()) << " instead of " << e.axis);
			EXPECT(close(M(l.get_curvature_factor()), e.curv, 0), how << ": curvature factors " << M(l.get_curvature_factor()) << " instead of " << e.curv);
		}
	}
}

PROP("P29", "constructors, setters and copies", "turned, moving, with margins", 7000, 60000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.far = true;
	o.planar = s.flag();
	o.flat = o.sharp = o.bare = true;
	Ell e = gen::ellipsoid(s, o, gen::name(s, 1)); // the data all of them shall end up with
	double m = e.margin.x;
	bool uniform = e.margin.y == m && e.margin.z == m;
	DESC(e);
	if(norm(e.v) > 0 && norm(e.margin) > 0 && std::fabs(e.q.w) < 0.999L) ctx.interesting();
	std::vector<V> probes;
	for(int i = 0; i < 4; ++i) probes.push_back(i % 2 ? gen::velocity(s, o.planar) : gen::point(s, o.planar));
	Ell plain; // defaults
	plain.name = e.name;
	Ell with = plain, at = plain, st = plain, full = plain;
	with.margin = e.margin;
	at = with;
	at.c = at.ref = e.c;
	st = e;
	st.axis = st.curv = V(1, 1, 1);
	st.ref = st.c;
	full = st;
	full.ref = e.ref;
	Ell half = at; // a state without velocities
	half.q = e.q;
	auto zero = [](Ell x) { x.margin = V(); return x; };
	State s_full = state_of(e), s_pose(E(e.c), E(e.q)), s_pos(E(e.c));
	Eigen::Array3d ma = A(e.margin);
	double x = e.c.x, y = e.c.y, z = e.c.z;
	typedef std::shared_ptr<Ellipsoid> EP;
	std::vector<std::pair<const char*, EP>> built;
	auto add = [&](const char* how, EP p, const Ell& want) { is(*p, want, "Ellipsoid", how); built.push_back({how, p}); };
	add("name", std::make_shared<Ellipsoid>(e.name), plain);
	if(uniform) add("name and margin", std::make_shared<Ellipsoid>(e.name, m), with);
	add("name and margins", std::make_shared<Ellipsoid>(e.name, ma), with);
	add("name and three numbers", std::make_shared<Ellipsoid>(e.name, x, y, z), zero(at));
	if(uniform) add("name, three numbers and margin", std::make_shared<Ellipsoid>(e.name, x, y, z, m), at);
	add("name, three numbers and margins", std::make_shared<Ellipsoid>(e.name, x, y, z, ma), at);
	add("name and state", std::make_shared<Ellipsoid>(e.name, s_full), zero(st));
	if(uniform) add("name, state and margin", std::make_shared<Ellipsoid>(e.name, s_full, m), st);
	add("name, state and margins", std::make_shared<Ellipsoid>(e.name, s_full, ma), st);
	add("name, pose and margins", std::make_shared<Ellipsoid>(e.name, s_pose, ma), half);
	add("name, position and margins", std::make_shared<Ellipsoid>(e.name, s_pos, ma), at);
	add("name, state and reference point", std::make_shared<Ellipsoid>(e.name, s_full, E(e.ref)), zero(full));
	if(uniform) add("name, state, reference point and margin", std::make_shared<Ellipsoid>(e.name, s_full, E(e.ref), m), full);
	add("name, state, reference point and margins", std::make_shared<Ellipsoid>(e.name, s_full, E(e.ref), ma), full);
	built.push_back({"copy of one without lengths", std::make_shared<Ellipsoid>(*built.back().second)});
	is(*built.back().second, full, "Ellipsoid", built.back().first);

	// the rest through the setters, in any order; those without the margin are completed by assignment
	EP model = make(e);
	is(*model, e, "Ellipsoid", "all data");
	Num want = everything(*model, ctx, probes, true);
	for(auto& b : built)
	{
		auto& p = *b.second;
		if(!close(M(p.get_safety_margin()), e.margin, 0)) continue;
		int first = s.below(7);
		for(int k = 0; k < 7; ++k)
			switch((first + k * 3) % 7)
			{
			case 0: if(s.flag()) { p.set_pose(Pose(E(e.c), E(e.q))); } else p.set_position(E(e.c)); break;
			case 1: p.set_orientation(E(e.q)); break;
			case 2: p.set_linear_velocity(E(e.v)); break;
			case 3: p.set_angular_velocity(E(e.w)); break;
			case 4: p.set_axis_lengths(A(e.axis)); break;
			case 5: p.set_curvature_factor(A(e.curv)); break;
			default: p.set_reference_position(E(e.ref)); if(s.flag()) p.set_position(x, y, z); break;
			}
		p.set_pose(model->get_pose()); // the sign and last digit of the orientation
		Num got = everything(p, ctx, probes, true);
		EXPECT(equal(got, want), "built from " << b.first << ", then set: " << differ(got, want));
	}
	// copies and assignments are equal and separate
	Ellipsoid copy(*model), assigned("other", 3.0, 2.0, 1.0, 0.7), source(*model);
	assigned.set_curvature_factor(Eigen::Array3d(2, 3, 1));
	assigned = *model;
	for(Ellipsoid* c : {&copy, &assigned})
	{
		Num got = everything(*c, ctx, probes, true);
		EXPECT(equal(got, want), (c == &copy ? "copy: " : "assigned: ") << differ(got, want));
	}
	V d = gen::point(s, false);
	Q q2 = gen::orientation(s, false);
	auto change = [&](Ellipsoid& p) {
		switch(s.below(8))
		{
		case 0: p.set_position(E(d)); break;
		case 1: p.set_orientation(E(q2)); break;
		case 2: p.set_linear_velocity(E(d)); break;
		case 3: p.set_angular_velocity(E(d)); break;
		case 4: p.set_axis_lengths(A(e.axis + V(1, 0, 2))); break;
		case 5: p.set_curvature_factor(A(e.curv + V(1, 0, 2))); break;
		case 6: p.set_reference_position(E(d)); break;
		default: p.set_name("changed"); break;
		}
	};
	for(int i = 0; i < 3; ++i) { change(copy); change(assigned); }
	Num got = everything(*model, ctx, probes, true);
	EXPECT(equal(got, want), "an obstacle changed with its copy: " << differ(got, want));
	Ellipsoid kept(*model);
	for(int i = 0; i < 3; ++i) change(*model);
	got = everything(kept, ctx, probes, true);
	EXPECT(equal(got, want), "a copy changed with its original: " << differ(got, want));
}

PROP("P29", "plain obstacles", "turned, moving, with margins", 16000, 120000)
{
	Src& s = ctx.s;
	gen::Opt o;
	o.far = true;
	o.planar = s.flag();
	Ell e = gen::ellipsoid(s, o, gen::name(s, 1));
	double m = e.margin.x;
	DESC(e);
	if(norm(e.v) > 0 && norm(e.margin) > 0 && std::fabs(e.q.w) < 0.999L) ctx.interesting();
	Ell with;
	with.name = e.name;
	with.margin = V(m, m, m);
	Ell arr = with;
	arr.margin = e.margin;
	Eigen::Array3d ma = A(e.margin);
	State st = state_of(e);
	auto at = [&](Ell x) { x.c = x.ref = e.c; return x; };
	auto full = [&](Ell x) { x.c = x.ref = e.c; x.q = e.q; x.v = e.v; x.w = e.w; return x; };
	auto refd = [&](Ell x) { x = full(x); x.ref = e.ref; return x; };
	auto none = [](Ell x) { x.margin = V(); return x; };
	Ell anon = none(with);
	anon.name = "obstacle";
	is(*std::make_shared<Obstacle>(), anon, nullptr, "nothing");
	is(*std::make_shared<Obstacle>(e.name), none(with), nullptr, "name");
	is(*std::make_shared<Obstacle>(e.name, m), with, nullptr, "name and margin");
	is(*std::make_shared<Obstacle>(e.name, ma), arr, nullptr, "name and margins");
	is(*std::make_shared<Obstacle>(e.name, (double)e.c.x, (double)e.c.y, (double)e.c.z), at(none(with)), nullptr, "name and three numbers");
	is(*std::make_shared<Obstacle>(e.name, (double)e.c.x, (double)e.c.y, (double)e.c.z, m), at(with), nullptr, "name, three numbers and margin");
	is(*std::make_shared<Obstacle>(e.name, (double)e.c.x, (double)e.c.y, (double)e.c.z, ma), at(arr), nullptr, "name, three numbers and margins");
	is(*std::make_shared<Obstacle>(e.name, st), full(none(with)), nullptr, "name and state");
	is(*std::make_shared<Obstacle>(e.name, st, m), full(with), nullptr, "name, state and margin");
	is(*std::make_shared<Obstacle>(e.name, st, ma), full(arr), nullptr, "name, state and margins");
	is(*std::make_shared<Obstacle>(e.name, st, E(e.ref)), refd(none(with)), nullptr, "name, state and reference point");
	is(*std::make_shared<Obstacle>(e.name, st, E(e.ref), m), refd(with), nullptr, "name, state, reference point and margin");
	Obstacle last(e.name, st, E(e.ref), ma), copy(last);
	is(last, refd(arr), nullptr, "name, state, reference point and margins");
	is(copy, refd(arr), nullptr, "copied obstacle");
	copy.set_position(1, 2, 3);
	copy.set_name("other");
	is(last, refd(arr), nullptr, "obstacle whose copy was changed");
	// hulls and aggregates without members are defined too
	StarShapeHull h(s.flag(), 2 + s.below(100), 0.3);
	for(int i = 0; i < 3; ++i) EXPECT(h.get_position()(i) == 0 && h.get_reference_position()(i) == 0 && h.get_safety_margin()(i) == 0 && h.get_linear_velocity()(i) == 0, "a new hull is not at rest in the origin");
	EXPECT(h.get_type() == "StarShapeHull", "a new hull is of type '" << h.get_type() << "'");
	auto a = std::make_shared<Aggregate>();
	for(int i = 0; i < 3; ++i) EXPECT(a->get_position()(i) == 0 && a->get_reference_position()(i) == 0 && a->get_safety_margin()(i) == 0 && a->get_linear_velocity()(i) == 0, "a new aggregate is not at rest in the origin");
	EXPECT(a->get_type() == "Aggregate" && a->get_primitives().empty(), "a new aggregate has members");
}

PROP("P29", "one setter at a time", "five setters or more, at least two obstacles", 60000, 500000)
{
	Src& s = ctx.s;
	std::vector<std::shared_ptr<Ellipsoid>> obs;
	std::vector<Ell> want;
	int count = 1 + s.below(3), n = 1 + s.below(12);
	for(int i = 0; i < count; ++i)
	{
		gen::Opt o;
		o.planar = s.flag();
		Ell e = gen::ellipsoid(s, o, gen::name(s, i));
		e.how = 0;
		DESC(e);
		obs.push_back(make(e));
		want.push_back(e);
	}
	if(n >= 5 && count > 1) ctx.interesting();
	for(int k = 0; k < n; ++k)
	{
		int at = s.below(obs.size());
		Ellipsoid& p = *obs[at];
		Ell& e = want[at];
		V x = gen::spot(s);
		if(s.chance(1, 10)) x = s.flag() ? e.c : e.ref;
		if(s.chance(1, 3)) x = dbl((k % 2 ? e.c : e.ref) + (R)std::exp(uni(s, -25, 0)) * gen::direction(s, false));
		Q q = gen::orientation(s, false);
		V l(gen::length(s), gen::length(s), gen::length(s));
		if(s.chance(1, 6)) l[s.below(3)] = 0;
		V nudged = s.chance(1, 3) ? dbl((k % 2 ? e.v : e.w) + (R)std::exp(uni(s, -40, 0)) * gen::direction(s, false)) : x;
		DESC("obstacle " << at << ": ");
		switch(s.below(12))
		{
		case 0: DESC("position " << x); p.set_position(E(x)); e.c = x; break;
		case 1: DESC("position by numbers " << x); p.set_position((double)x.x, (double)x.y, (double)x.z); e.c = x; break;
		case 2: DESC("orientation " << q); p.set_orientation(E(q)); e.q = q; break;
		case 3: DESC("pose " << x << " " << q); p.set_pose(Pose(E(x), E(q))); e.c = x; e.q = q; break;
		case 4: DESC("linear velocity " << nudged); p.set_linear_velocity(E(nudged)); e.v = nudged; break;
		case 5: DESC("angular velocity " << nudged); p.set_angular_velocity(E(nudged)); e.w = nudged; break;
		case 6: DESC("reference point " << x); p.set_reference_position(E(x)); e.ref = x; break;
		case 7: DESC("lengths " << l); p.set_axis_lengths(A(l)); e.axis = l; break;
		case 8: DESC("curvature " << l); p.set_curvature_factor(A(l)); e.curv = l; break;
		case 9: e.name = gen::name(s, k); DESC("name " << e.name); p.set_name(e.name); break;
		case 10:
			DESC("replaced by a copy");
			{ auto old = obs[at]; obs[at] = std::make_shared<Ellipsoid>(*old); old->set_position(E(x)); old->set_reference_position(E(l)); old->set_axis_lengths(A(l)); old->set_linear_velocity(E(l)); }
			break;
		default:
			DESC("assigned");
			{ int from = s.below(obs.size()); p = *obs[from]; e = Ell(want[from]); }
		}
		for(size_t i = 0; i < obs.size(); ++i) is(*obs[i], want[i], "Ellipsoid", "after a setter");
		for(size_t i = 0; i < obs.size(); ++i)
			EXPECT(close(M(obs[i]->get_state().get_position()), want[i].c, 0) && close(M(obs[i]->get_pose().get_position()), want[i].c, 0) && close(M(obs[i]->get_state().get_linear_velocity()), want[i].v, 0) && close(M(obs[i]->get_state().get_angular_velocity()), want[i].w, 0), "the state or pose of an obstacle differs from its single values");
	}
}
