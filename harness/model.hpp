// Reference model: the published law and the geometry, in long double, without the library and
// without Eigen. Nothing here is taken from the code under test.
#pragma once
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>

namespace model
{
	typedef long double R;
	static const R PI = 3.14159265358979323846264338327950288L;

	struct V
	{
		R x = 0, y = 0, z = 0;
		V() {}
		V(R a, R b, R c) : x(a), y(b), z(c) {}
		R& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
		R operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
	};
	inline V operator+(V a, V b) { return V(a.x + b.x, a.y + b.y, a.z + b.z); }
	inline V operator-(V a, V b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
	inline V operator*(R s, V a) { return V(s * a.x, s * a.y, s * a.z); }
	inline V operator*(V a, R s) { return s * a; }
	inline R dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
	inline V cross(V a, V b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
	inline R norm(V a) { return std::sqrt(dot(a, a)); }
	inline V unit(V a) { R n = norm(a); return n > 0 ? (1 / n) * a : a; }

	struct Q
	{
		R w = 1, x = 0, y = 0, z = 0;
		Q() {}
		Q(R a, R b, R c, R d) : w(a), x(b), y(c), z(d) {}
	};
	inline Q unit(Q q)
	{
		R n = std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
		return Q(q.w / n, q.x / n, q.y / n, q.z / n);
	}
	inline Q mul(Q a, Q b)
	{
		return Q(a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
		         a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w);
	}
	inline Q conj(Q q) { return Q(q.w, -q.x, -q.y, -q.z); }
	// v turned by q (normalised here)
	inline V rot(Q q0, V v)
	{
		Q q = unit(q0);
		V u(q.x, q.y, q.z);
		return v + 2 * q.w * cross(u, v) + 2 * cross(u, cross(u, v));
	}
	inline Q about(V axis, R angle)
	{
		V a = unit(axis);
		R s = std::sin(angle / 2);
		return Q(std::cos(angle / 2), s * a.x, s * a.y, s * a.z);
	}
	inline Q yaw(R a) { return Q(std::cos(a / 2), 0, 0, std::sin(a / 2)); }

	struct Ell
	{
		std::string name;
		V c, axis = V(1, 1, 1), margin, curv = V(1, 1, 1), ref, v, w;
		Q q;
		int how = 0; // which way of building the library's object is used, see make()
		V lengths(R extra = 0) const { return axis + margin + V(extra, extra, extra); }
		// an axis without extent and without margin measures plain coordinates
		V scale(R extra = 0) const
		{
			V l = lengths(extra);
			for(int i = 0; i < 3; ++i) if(l[i] <= 1e-4L) l[i] = 1;
			return l;
		}
		V local(V p) const { return rot(conj(q), p - c); }
		V world(V p) const { return rot(q, p) + c; }
		R gamma(V p, R extra = 0) const
		{
			V y = local(p), l = scale(extra);
			R g = 0;
			for(int i = 0; i < 3; ++i) g += std::pow(std::fabs(y[i] / l[i]), 2 * curv[i]);
			return g;
		}
		// gradient of gamma in the local frame
		V grad_local(V p, R extra = 0) const
		{
			V y = local(p), l = scale(extra), g;
			for(int i = 0; i < 3; ++i)
			{
				R a = std::fabs(y[i] / l[i]);
				g[i] = (a == 0 ? 0 : 2 * curv[i] / l[i] * std::pow(a, 2 * curv[i] - 1) * (y[i] < 0 ? -1 : 1));
			}
			return g;
		}
		V normal_local(V p, R extra = 0) const { return unit(grad_local(p, extra)); }
		V normal(V p, R extra = 0) const { return rot(q, normal_local(p, extra)); }
		// how far rounding of the coordinates (doubles) can move the level value
		R gamma_error(V p, R extra = 0) const
		{
			V y = local(p), l = scale(extra);
			R e = 0;
			for(int i = 0; i < 3; ++i)
			{
				R d = 4e-16L * (norm(p) + norm(c)) / l[i], a = std::fabs(y[i]) / l[i];
				e += std::pow(a + d, 2 * curv[i]) - std::pow(std::max<R>(0, a - d), 2 * curv[i]);
			}
			return e;
		}
		// how far rounding of the coordinates can turn the normal, close to the centre
		R normal_error_close(V p, R extra = 0) const
		{
			V y = local(p), l = scale(extra), g = grad_local(p, extra);
			R e = 0;
			for(int i = 0; i < 3; ++i)
			{
				R d = 4e-16L * (norm(p) + norm(c)) / l[i], a = std::fabs(y[i]) / l[i], m = 2 * curv[i] - 1;
				e = std::max(e, 2 * curv[i] / l[i] * (std::pow(a + d, m) - (a > d ? std::pow(a - d, m) : 0)));
			}
			return norm(g) > 0 ? e / norm(g) : 1;
		}
		// how far rounding of the coordinates (doubles) can turn the normal: factors below one
		// have an infinite slope on the axes
		R normal_error(V p, R extra = 0) const
		{
			V l = scale(extra), y = local(p);
			R e = 0, g = norm(grad_local(p, extra));
			for(int i = 0; i < 3; ++i)
			{
				if(curv[i] >= 1) continue;
				R length = l[i], m = 2 * curv[i] - 1, a = std::fabs(y[i]) / length;
				R d = 4e-16L * (norm(p) + norm(c)) / length;
				e = std::max(e, 2 * curv[i] / length * (a > 100 * d ? m * d * std::pow(a, m - 1) : std::pow(100 * d, m)));
			}
			return g > 0 ? e / g : 0;
		}
		V surface_velocity(V p) const { return v + cross(w, p - c); }
		// the value t such that c + t (p - c) has level g
		R along_ray(V dir_local, R g, R extra = 0) const
		{
			V l = scale(extra);
			auto f = [&](R t) { R s = 0; for(int i = 0; i < 3; ++i) s += std::pow(std::fabs(t * dir_local[i] / l[i]), 2 * curv[i]); return s; };
			R hi = 1;
			while(f(hi) < g) hi *= 2;
			R lo = 0;
			for(int k = 0; k < 200; ++k) { R m = (lo + hi) / 2; (f(m) < g ? lo : hi) = m; }
			return (lo + hi) / 2;
		}
	};

	inline std::vector<R> weights(const std::vector<R>& d, R crit, R power)
	{
		std::vector<R> w(d.size(), 0);
		int n = 0;
		for(R x : d) if(x <= crit) ++n;
		R sum = 0, least = 0;
		for(size_t i = 0; i < d.size(); ++i) if(i == 0 || d[i] - crit < least) least = d[i] - crit;
		for(size_t i = 0; i < d.size(); ++i)
		{
			w[i] = n > 0 ? (d[i] <= crit ? 1 : 0) : std::pow((d[i] - crit) / least, -power);
			sum += w[i];
		}
		for(R& x : w) x /= sum;
		return w;
	}

	// what one obstacle contributes: level value, unit normal and unit reference direction (world
	// frame), surface velocity at the agent
	struct Part
	{
		R gamma;
		V n, r, vs;
		R ncond = 0; // uncertainty of n
	};

	struct Result
	{
		V velocity, obstacle_velocity, relative;
		std::vector<R> w;
		bool good = true;     // well conditioned: the comparison is meaningful
		const char* why = "";
		R scale = 0;          // size of the intermediate quantities, for tolerances
	};

	inline V modulate(V v, R gamma, V n, V r)
	{
		R d = gamma <= 1 ? 1 : 1 / gamma;
		return (1 + d) * v - (2 * d * dot(n, v) / dot(n, r)) * r;
	}

	inline Result law(V v, const std::vector<Part>& parts, R crit = 1, R power = 2)
	{
		Result res;
		auto bad = [&](const char* w) { if(res.good) { res.good = false; res.why = w; } };
		std::vector<R> d;
		for(auto& p : parts) d.push_back(p.gamma);
		res.w = weights(d, crit, power);
		bool many = false;
		for(R w : res.w) if(w > 1e-14L && w < 1 - 1e-14L) many = true;
		if(parts.size() > 1)
		{
			// the switch to equal sharing is a jump
			R least = d[0];
			for(R x : d) least = std::min(least, x);
			for(R x : d) if(std::fabs(x - crit) < 1e-7L * (1 + std::fabs(crit))) bad("a level value at the critical distance");
			if(least > crit && least - crit < 1e-5L) bad("next to the critical distance");
		}
		for(size_t i = 0; i < parts.size(); ++i)
			res.obstacle_velocity = res.obstacle_velocity + res.w[i] * std::exp(1 - std::max<R>(1, parts[i].gamma)) * parts[i].vs;
		V rel = v - res.obstacle_velocity;
		res.relative = rel;
		R speed = norm(rel);
		res.scale = norm(v) + norm(res.obstacle_velocity);
		if(speed == 0) { res.velocity = res.obstacle_velocity; return res; }
		if(speed < 1e-6L * res.scale) bad("relative velocity cancels");
		V e = (1 / speed) * rel;
		R mag = 0;
		V kappa;
		for(size_t i = 0; i < parts.size(); ++i)
		{
			R nr = dot(parts[i].n, parts[i].r);
			if(res.w[i] > 0 && std::fabs(nr) < 0.005L) bad("reference direction almost tangential");
			if(res.w[i] > 1e-12L && parts[i].ncond > 1e-9L) bad("normal next to a kink");
			V m = modulate(rel, parts[i].gamma, parts[i].n, parts[i].r);
			R len = norm(m);
			mag += res.w[i] * len;
			res.scale += res.w[i] * len;
			if(res.w[i] == 0) continue;
			if(len < 1e-5L * speed)
			{
				if(many) bad("a modulated velocity vanishes");
				continue;
			}
			V u = (1 / len) * m;
			R co = std::max<R>(-1, std::min<R>(1, dot(u, e)));
			V t = u - co * e;
			R st = norm(t);
			R ang = std::atan2(st, co);
			if(ang > 3.1L) bad("a modulated velocity turns back");
			if(st > 0) kappa = kappa + (res.w[i] * ang / st) * t;
		}
		R k = norm(kappa);
		V dir = k > 0 ? std::cos(k) * e + (std::sin(k) / k) * kappa : e;
		res.velocity = mag * dir + res.obstacle_velocity;
		return res;
	}

	inline Part part(const Ell& o, V p, R margin)
	{
		Part r;
		r.gamma = o.gamma(p, margin);
		r.n = o.normal(p, margin);
		r.ncond = o.normal_error(p, margin);
		r.r = unit(p - o.ref);
		r.vs = o.surface_velocity(p);
		return r;
	}

	inline Result avoid(V p, V v, R margin, const std::vector<Ell>& obs, R crit = 1, R power = 2)
	{
		std::vector<Part> parts;
		for(auto& o : obs) parts.push_back(part(o, p, margin));
		if(obs.empty()) { Result r; r.velocity = v; r.relative = v; return r; }
		return law(v, parts, crit, power);
	}
}
