// Stand-in for the matplotlib bridge: records every call instead of drawing, so that checks
// need no Python interpreter, write no files and can look at what a plot contains.
#pragma once
#define VERIF_PLOT_STUB 1
#include <array>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

namespace matplotlibcpp
{
	struct Call
	{
		std::string fn;
		std::vector<double> x, y;
		std::string s;
		std::vector<double> nums;
		std::map<std::string, std::string> kw;
	};

	inline std::vector<Call>& calls()
	{
		static std::vector<Call> c;
		return c;
	}

	namespace stub
	{
		template <typename V> std::vector<double> vec(const V& v) { return std::vector<double>(v.begin(), v.end()); }
		inline void rec(const std::string& fn) { Call c; c.fn = fn; calls().push_back(c); }
		inline void rec(const std::string& fn, const std::string& s) { Call c; c.fn = fn; c.s = s; calls().push_back(c); }
		inline void rec(const std::string& fn, const std::vector<double>& n, const std::string& s = "") { Call c; c.fn = fn; c.nums = n; c.s = s; calls().push_back(c); }
		inline void xy(const std::string& fn, const std::vector<double>& x, const std::vector<double>& y, const std::string& s, const std::map<std::string, std::string>& kw = {})
		{ Call c; c.fn = fn; c.x = x; c.y = y; c.s = s; c.kw = kw; calls().push_back(c); }
	}
	typedef std::map<std::string, std::string> Kw;

	inline void backend(const std::string&) {}
	inline bool annotate(std::string a, double x, double y) { stub::rec("text", std::vector<double>{x, y}, a); return true; }

	template <typename X, typename Y> bool plot(const std::vector<X>& x, const std::vector<Y>& y, const std::string& s = "") { stub::xy("plot", stub::vec(x), stub::vec(y), s); return true; }
	template <typename N> bool plot(const std::vector<N>& x, const std::vector<N>& y, const Kw& k) { stub::xy("plot", stub::vec(x), stub::vec(y), k.count("format") ? k.at("format") : "", k); return true; }
	template <typename N> bool plot(const std::vector<N>& y, const std::string& s = "")
	{
		std::vector<double> x;
		for(size_t i = 0; i < y.size(); ++i) x.push_back((double)i);
		stub::xy("plot", x, stub::vec(y), s);
		return true;
	}
	inline bool plot() { return true; }
	inline bool plot(const std::vector<double>& x, const std::vector<double>& y, const std::string& s = "") { stub::xy("plot", x, y, s); return true; }
	inline bool plot(const std::vector<double>& x, const std::vector<double>& y, const Kw& k) { stub::xy("plot", x, y, "", k); return true; }
	template <typename N> bool named_plot(const std::string&, const std::vector<N>& x, const std::vector<N>& y, const std::string& s = "") { stub::xy("plot", stub::vec(x), stub::vec(y), s); return true; }
	template <typename N> bool named_plot(const std::string& n, const std::vector<N>& y, const std::string& s = "") { (void)n; return plot(y, s); }
	template <typename X, typename Y> bool scatter(const std::vector<X>& x, const std::vector<Y>& y, const double = 1.0) { stub::xy("plot", stub::vec(x), stub::vec(y), "o"); return true; }
	template <typename N> bool fill(const std::vector<N>& x, const std::vector<N>& y, const Kw& k) { stub::xy("fill", stub::vec(x), stub::vec(y), "", k); return true; }
	template <typename N> void text(N x, N y, const std::string& s = "") { stub::rec("text", std::vector<double>{(double)x, (double)y}, s); }
	inline long figure(long n = -1) { stub::rec("figure", std::vector<double>{(double)n}); return 1; }
	inline bool fignum_exists(long) { return true; }
	inline void figure_size(size_t w, size_t h) { stub::rec("figure_size", std::vector<double>{(double)w, (double)h}); }
	inline void legend() { stub::rec("legend"); }
	template <typename N> void xlim(N a, N b) { stub::rec("xlim", std::vector<double>{(double)a, (double)b}); }
	template <typename N> void ylim(N a, N b) { stub::rec("ylim", std::vector<double>{(double)a, (double)b}); }
	inline double* xlim() { static double v[2] = {0, 0}; return v; }
	inline double* ylim() { static double v[2] = {0, 0}; return v; }
	template <typename N> void xticks(const std::vector<N>&, const std::vector<std::string>& = {}, const Kw& = {}) {}
	template <typename N> void yticks(const std::vector<N>&, const std::vector<std::string>& = {}, const Kw& = {}) {}
	inline void subplot(long r, long c, long n) { stub::rec("subplot", std::vector<double>{(double)r, (double)c, (double)n}); }
	inline bool subplots_adjust(const std::map<std::string, double>& = {}) { return true; }
	inline void title(const std::string& s, const Kw& = {}) { stub::rec("title", s); }
	inline void suptitle(const std::string& s, const Kw& = {}) { stub::rec("suptitle", s); }
	inline void axis(const std::string& s) { stub::rec("axis", s); }
	inline void xlabel(const std::string& s, const Kw& = {}) { stub::rec("xlabel", s); }
	inline void ylabel(const std::string& s, const Kw& = {}) { stub::rec("ylabel", s); }
	inline void grid(bool) { stub::rec("grid"); }
	inline void show(const bool block = true) { (void)block; stub::rec("show"); }
	inline void close() { stub::rec("close"); }
	inline void xkcd() {}
	inline void draw() { stub::rec("draw"); }
	template <typename N> void pause(N) { stub::rec("pause"); }
	inline void save(const std::string& f) { stub::rec("save", f); }
	inline void clf() { stub::rec("clf"); }
	inline void ion() {}
	inline void tight_layout() {}
	template <typename X, typename Y> bool stem(const std::vector<X>& x, const std::vector<Y>& y, const std::string& s = "") { return plot(x, y, s); }
	template <typename X, typename Y> bool semilogx(const std::vector<X>& x, const std::vector<Y>& y, const std::string& s = "") { return plot(x, y, s); }
	template <typename X, typename Y> bool semilogy(const std::vector<X>& x, const std::vector<Y>& y, const std::string& s = "") { return plot(x, y, s); }
	template <typename X, typename Y> bool loglog(const std::vector<X>& x, const std::vector<Y>& y, const std::string& s = "") { return plot(x, y, s); }
	template <typename N> bool fill_between(const std::vector<N>& x, const std::vector<N>& y, const std::vector<N>&, const Kw& k = {}) { stub::xy("fill", stub::vec(x), stub::vec(y), "", k); return true; }
	template <typename X, typename Y, typename U, typename W> bool quiver(const std::vector<X>& x, const std::vector<Y>& y, const std::vector<U>&, const std::vector<W>&, const Kw& k = {}) { stub::xy("quiver", stub::vec(x), stub::vec(y), "", k); return true; }
	template <typename X, typename Y> bool errorbar(const std::vector<X>& x, const std::vector<Y>& y, const std::vector<X>&, const Kw& k = {}) { stub::xy("errorbar", stub::vec(x), stub::vec(y), "", k); return true; }
}
