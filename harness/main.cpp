// Runner: forks workers, collects counts, turns a failing or crashing case into a shrunk replay.
#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace pbt;

static double now()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static std::string esc(const std::string& s)
{
	std::string o;
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c == '\n') o += "\\n";
		else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}

struct Opt
{
	std::string prop, tier = "quick", out, tmp = "/tmp", replay, minimize, dump;
	uint64_t dump_count = 40;
	uint64_t seed = 1;
	int jobs = 8;
	double factor = 1, limit = 500, shrink = 45;
	std::set<std::string> known;
};

static Shared* new_shared()
{
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if(p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shared*)p;
}

static void quiet_stderr(const char* path)
{
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

static uint64_t case_seed(uint64_t seed, const Sub& s, uint64_t i)
{
	uint64_t h = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
	for(char c : s.id + "/" + s.name) h = (h ^ (unsigned char)c) * 0x100000001B3ull;
	h ^= i * 0xD6E8FEB86659FD93ull;
	splitmix(h);
	return h;
}

static void set_str(char* dst, size_t n, const std::string& s)
{
	size_t k = std::min(n - 1, s.size());
	memcpy(dst, s.data(), k);
	dst[k] = 0;
}

// runs one case in this process; 1 pass, 2 discard, 3 violation
static int run_case(const Sub& s, Src& src, Shared* sh, bool thorough, bool verbose, Ctx** keep = nullptr)
{
	Ctx* c = new Ctx(src);
	c->thorough = thorough;
	c->verbose = verbose;
	int r = 1;
	try { s.fn(*c); }
	catch(const Discard&) { r = 2; }
	catch(const Violation& v)
	{
		r = 3;
		set_str(sh->msg, sizeof sh->msg, v.what());
		set_str(sh->key, sizeof sh->key, v.key);
	}
	catch(const std::exception& e)
	{
		r = 3;
		set_str(sh->msg, sizeof sh->msg, std::string("unexpected exception: ") + e.what());
		set_str(sh->key, sizeof sh->key, "");
	}
	catch(...)
	{
		r = 3;
		set_str(sh->msg, sizeof sh->msg, "unexpected exception of unknown type");
		set_str(sh->key, sizeof sh->key, "");
	}
	if(verbose) set_str(sh->desc, sizeof sh->desc, c->desc.str());
	if(keep) *keep = c;
	else delete c;
	return r;
}

struct Outcome
{
	int status = 0; // 1 pass, 2 discard, 3 violation, 5 crash, 6 hang
	std::string msg, key, desc;
	std::vector<uint32_t> words;
	bool bad() const { return status == 3 || status == 5 || status == 6; }
};

static const double CASE_CPU = 40;

// runs a function in a forked child and classifies how it ends
static Outcome in_child(const Opt& o, Shared* sh, const std::function<int()>& f, double cpu = CASE_CPU)
{
	Outcome r;
	sh->status = 0;
	sh->msg[0] = sh->desc[0] = sh->key[0] = 0;
	std::string log = o.tmp + "/child.log";
	pid_t p = fork();
	if(p == 0)
	{
		rlimit l{(rlim_t)cpu, (rlim_t)cpu + 2};
		setrlimit(RLIMIT_CPU, &l);
		quiet_stderr(log.c_str());
		int st = f();
		sh->status = st;
		_exit(0);
	}
	int st = 0;
	waitpid(p, &st, 0);
	r.words.assign(sh->words, sh->words + sh->nwords);
	if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->status)
	{
		r.status = sh->status;
		r.msg = sh->msg; r.key = sh->key; r.desc = sh->desc;
		return r;
	}
	if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
	{
		r.status = WTERMSIG(st) == SIGXCPU ? 6 : 1; // killed from outside: no verdict
		r.msg = "does not return (CPU limit)";
		return r;
	}
	r.status = 5;
	std::ifstream in(log);
	std::string line, first;
	while(std::getline(in, line))
	{
		if(line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos ||
		   line.find("Assertion") != std::string::npos || line.find("terminate called") != std::string::npos)
		{
			first += line.substr(0, 600) + " ";
			if(first.size() > 1500) break;
		}
	}
	r.msg = "crash: " + (first.empty() ? std::string("process ended abnormally") : first);
	return r;
}

static Outcome replay_words(const Opt& o, const Sub& s, const std::vector<uint32_t>& w, Shared* sh, bool verbose)
{
	return in_child(o, sh, [&]() {
		Src src(w.data(), w.size(), sh);
		return run_case(s, src, sh, o.tier == "thorough", verbose);
	});
}

static std::vector<uint32_t> shrink(const Opt& o, const Sub& s, std::vector<uint32_t> best, Shared* sh, const Outcome& orig, int& attempts)
{
	double end = now() + o.shrink;
	attempts = 0;
	auto fails = [&](const std::vector<uint32_t>& w) {
		if(now() > end) return false;
		++attempts;
		Outcome r = replay_words(o, s, w, sh, false);
		return r.bad() && !o.known.count(r.key) && (r.status == orig.status);
	};
	bool progress = true;
	while(progress && now() < end)
	{
		progress = false;
		for(size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2)
		{
			for(size_t at = 0; at < best.size() && now() < end;)
			{
				std::vector<uint32_t> c(best);
				c.erase(c.begin() + at, c.begin() + std::min(at + len, c.size()));
				if(fails(c)) { best = c; progress = true; }
				else at += len;
			}
		}
		for(size_t len = std::max<size_t>(1, best.size() / 4); len >= 1 && now() < end; len /= 2)
		{
			for(size_t at = 0; at < best.size() && now() < end; at += len)
			{
				std::vector<uint32_t> c(best);
				bool any = false;
				for(size_t i = at; i < std::min(at + len, c.size()); ++i) { any |= c[i] != 0; c[i] = 0; }
				if(any && fails(c)) { best = c; progress = true; }
			}
		}
		for(size_t i = 0; i < best.size() && now() < end; ++i)
		{
			uint32_t lo = 0, hi = best[i]; // hi fails
			while(lo < hi && now() < end)
			{
				uint32_t mid = lo + (hi - lo) / 2;
				std::vector<uint32_t> c(best);
				c[i] = mid;
				if(fails(c)) { hi = mid; best = c; progress = true; }
				else lo = mid + 1;
			}
		}
		while(!best.empty() && best.back() == 0) best.pop_back();
	}
	return best;
}

struct Stats
{
	std::vector<uint64_t> evals, discards, nontrivial;
	std::map<std::string, uint64_t> labels, known;
	std::vector<std::string> samples;
	std::vector<std::unordered_set<uint64_t>> hashes;
	uint64_t words = 0, inconclusive = 0;
};

int main(int argc, char** argv)
{
	Opt o;
	for(int i = 1; i + 1 < argc; i += 2)
	{
		std::string a = argv[i], v = argv[i + 1];
		if(a == "--prop") o.prop = v;
		else if(a == "--tier") o.tier = v;
		else if(a == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
		else if(a == "--out") o.out = v;
		else if(a == "--tmp") o.tmp = v;
		else if(a == "--jobs") o.jobs = atoi(v.c_str());
		else if(a == "--factor") o.factor = atof(v.c_str());
		else if(a == "--limit") o.limit = atof(v.c_str());
		else if(a == "--shrink") o.shrink = atof(v.c_str());
		else if(a == "--replay") o.replay = v;
		else if(a == "--minimize") o.minimize = v; // FILE, rewritten with the shrunk case
		else if(a == "--dump") o.dump = v; // directory for the choices of random cases, one folder per sub-check
		else if(a == "--dump-count") o.dump_count = strtoull(v.c_str(), nullptr, 10);
		else if(a == "--known") o.known.insert(v);
	}
	std::vector<Sub> subs;
	for(auto& s : registry()) if(s.id == o.prop) subs.push_back(s);
	if(subs.empty()) { std::cerr << "no such property: " << o.prop << "\n"; return 2; }
	bool thorough = o.tier == "thorough";
	Shared* scratch = new_shared();

	auto find_sub = [&](const std::string& n) -> const Sub* {
		for(auto& s : subs) if(s.name == n) return &s;
		return nullptr;
	};

	// re-run of a whole shard prefix, for failures that need what earlier cases left behind
	auto range_run = [&](const Sub& s, uint64_t from, uint64_t upto, uint64_t step) {
		return in_child(o, scratch, [&]() {
			int r = 1;
			for(uint64_t i = from; i <= upto; i += step)
			{
				Src src(case_seed(o.seed, s, i), scratch);
				r = run_case(s, src, scratch, thorough, i == upto);
				if(r == 3 && i != upto) r = 1;
			}
			return r;
		}, 600);
	};

	if(!o.dump.empty())
	{
		for(size_t k = 0; k < subs.size(); ++k)
		for(uint64_t i = 0; i < o.dump_count; ++i)
		{
			in_child(o, scratch, [&]() {
				Src src(case_seed(o.seed + 7, subs[k], i), scratch);
				int r = run_case(subs[k], src, scratch, thorough, false);
				if(r != 1) return r;
				std::ofstream f(o.dump + "/" + std::to_string(k) + "/seed" + std::to_string(i), std::ios::binary);
				f.write((const char*)scratch->words, 4 * (std::streamsize)scratch->nwords);
				return r;
			});
		}
		for(auto& s : subs) std::cout << s.name << "\n";
		return 0;
	}

	if(!o.minimize.empty())
	{
		std::ifstream in(o.minimize);
		std::string t, name;
		std::vector<uint32_t> w;
		while(in >> t)
		{
			if(t == "sub") { std::getline(in, name); name = name.substr(name.find_first_not_of(' ')); }
			else if(t == "words") { size_t n; in >> n; w.resize(n); for(auto& x : w) in >> x; }
			else std::getline(in, t);
		}
		in.close();
		const Sub* s = find_sub(name);
		if(!s) { std::cerr << "unknown sub " << name << "\n"; return 2; }
		Outcome first = replay_words(o, *s, w, scratch, true);
		for(int k = 0; k < 2 && first.bad(); ++k) { Outcome q = replay_words(o, *s, w, scratch, true); if(!q.bad()) first = q; }
		if(!first.bad() || o.known.count(first.key)) return 0;
		int attempts = 0;
		std::vector<uint32_t> m = shrink(o, *s, w, scratch, first, attempts);
		Outcome fin = replay_words(o, *s, m, scratch, true);
		if(!fin.bad()) { fin = first; m = w; }
		auto flat = [](std::string x) { for(auto& c : x) if(c == '\n') c = ' '; return x; };
		std::ofstream rp(o.minimize);
		rp << "property " << o.prop << "\nsub " << s->name << "\nwords " << m.size();
		for(auto x : m) rp << " " << x;
		rp << "\nfound by libFuzzer\nshrink_attempts " << attempts << "\nmessage " << flat(fin.msg) << "\ninput " << flat(fin.desc) << "\n";
		return 3;
	}

	if(!o.replay.empty())
	{
		// text format: "sub <name>", then "words n w..." or "range seed from upto step"
		std::ifstream in(o.replay);
		std::string t, name;
		Outcome r;
		while(in >> t)
		{
			if(t == "sub") { std::getline(in, name); name = name.substr(name.find_first_not_of(' ')); }
			else if(t == "words")
			{
				size_t n; in >> n;
				std::vector<uint32_t> w(n);
				for(auto& x : w) in >> x;
				const Sub* s = find_sub(name);
				if(!s) { std::cerr << "unknown sub " << name << "\n"; return 2; }
				r = replay_words(o, *s, w, scratch, true);
			}
			else if(t == "range")
			{
				uint64_t a, b, c, sd; in >> sd >> a >> b >> c;
				o.seed = sd;
				const Sub* s = find_sub(name);
				if(!s) { std::cerr << "unknown sub " << name << "\n"; return 2; }
				r = range_run(*s, a, b, c);
			}
			else std::getline(in, t);
		}
		if(r.bad() && !o.known.count(r.key)) { std::cout << "FAILS: " << r.msg << "\ncase: " << r.desc << "\n"; return 3; }
		std::cout << (r.bad() ? "known finding " + r.key : r.status == 2 ? "discarded" : "passes") << "\n" << "case: " << r.desc << "\n";
		return 0;
	}

	double t0 = now();
	int J = o.jobs;
	std::vector<uint64_t> n_cases;
	for(auto& s : subs) n_cases.push_back((uint64_t)std::max(1.0, (thorough ? s.thorough : s.quick) * o.factor));

	std::vector<Shared*> sh(J);
	std::vector<pid_t> pid(J, -1);
	std::vector<bool> done(J, false);
	std::vector<double> beat(J, now());
	std::vector<std::pair<uint32_t, uint64_t>> last(J, {0, 0});
	for(auto& x : sh) x = new_shared();

	auto part = [&](int w, int gen) { return o.tmp + "/part." + std::to_string(w) + "." + std::to_string(gen); };
	std::vector<int> gen(J, 0);

	auto start = [&](int w, uint32_t sub0, uint64_t idx0) {
		sh[w]->sub = sub0; sh[w]->index = idx0; sh[w]->status = 0; sh[w]->nwords = 0;
		beat[w] = now();
		pid_t p = fork();
		if(p != 0) { pid[w] = p; return; }
		std::string log = o.tmp + "/worker." + std::to_string(w) + ".log";
		quiet_stderr("/dev/null");
		(void)log;
		std::ofstream out(part(w, gen[w]));
		std::map<std::string, uint64_t> labels, known;
		double tend = t0 + o.limit;
		for(uint32_t k = sub0; k < subs.size(); ++k)
		{
			uint64_t ev = 0, disc = 0, nt = 0, words = 0;
			uint64_t i0 = (k == sub0) ? idx0 : (uint64_t)w;
			for(uint64_t i = i0; i < n_cases[k]; i += J)
			{
				if((ev & 15) == 0 && now() > tend) { labels["TIME LIMIT"]++; break; }
				sh[w]->sub = k; sh[w]->index = i;
				Src src(case_seed(o.seed, subs[k], i), sh[w]);
				Ctx* c = nullptr;
				bool verbose = (i < 3);
				int r = run_case(subs[k], src, sh[w], thorough, verbose, &c);
				words += src.used;
				if(r == 3)
				{
					std::string key = sh[w]->key;
					if(!key.empty() && o.known.count(key)) { known[key]++; delete c; ++ev; continue; }
					sh[w]->status = 3;
					out.flush();
					_exit(3);
				}
				++ev;
				if(r == 2) ++disc;
				else
				{
					for(auto& l : c->seen) labels[subs[k].name + ": " + l.first]++;
					if(c->nontrivial) { ++nt; out << "H " << k << " " << src.hash << "\n"; }
					if(verbose) out << "S " << subs[k].name << " #" << i << ": " << esc(std::string(sh[w]->desc)) << "\n";
				}
				delete c;
			}
			out << "C " << k << " " << ev << " " << disc << " " << nt << " " << words << "\n";
		}
		for(auto& l : labels) out << "L " << l.second << " " << l.first << "\n";
		for(auto& l : known) out << "K " << l.second << " " << l.first << "\n";
		out.close();
		sh[w]->status = 4;
		_exit(0);
	};
	for(int w = 0; w < J; ++w) start(w, 0, w);

	struct Fail { bool set = false; uint32_t sub; uint64_t idx; int w; std::vector<uint32_t> words; Outcome first; } fail;
	uint64_t inconclusive = 0;
	std::vector<std::string> notes;
	int left = J;
	while(left > 0 && !fail.set)
	{
		usleep(5000);
		for(int w = 0; w < J && !fail.set; ++w)
		{
			if(done[w]) continue;
			std::pair<uint32_t, uint64_t> cur((uint32_t)sh[w]->sub, (uint64_t)sh[w]->index);
			if(cur != last[w]) { last[w] = cur; beat[w] = now(); }
			int st = 0;
			pid_t r = waitpid(pid[w], &st, WNOHANG);
			bool hang = false;
			if(r == 0)
			{
				if(now() - beat[w] < 60) continue;
				kill(pid[w], SIGKILL);
				waitpid(pid[w], &st, 0);
				hang = true;
			}
			else if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->status == 4) { done[w] = true; --left; continue; }
			// failed, crashed or stuck: confirm from the recorded words
			uint32_t k = sh[w]->sub;
			uint64_t i = sh[w]->index;
			std::vector<uint32_t> words(sh[w]->words, sh[w]->words + sh[w]->nwords);
			int bad = 0;
			Outcome first;
			for(int t = 0; t < 3; ++t)
			{
				Outcome q = replay_words(o, subs[k], words, scratch, true);
				if(q.bad() && !o.known.count(q.key)) { ++bad; first = q; }
				else break;
			}
			if(bad == 3) { fail.set = true; fail.sub = k; fail.idx = i; fail.w = w; fail.words = words; fail.first = first; break; }
			if(!hang)
			{
				int again = 0;
				for(int t = 0; t < 3; ++t)
				{
					Outcome q = range_run(subs[k], w, i, J);
					if(q.bad() && !o.known.count(q.key)) { ++again; first = q; }
					else break;
				}
				if(again == 3)
				{
					// shorten the history it needs
					uint64_t from = w;
					for(uint64_t back = 1; back < (i - w) / J; back *= 2)
					{
						Outcome q = range_run(subs[k], i - back * J, i, J);
						if(q.bad() && !o.known.count(q.key)) { from = i - back * J; first = q; break; }
					}
					fail.set = true; fail.sub = k; fail.idx = i; fail.w = w; fail.first = first;
					fail.first.status = 7;
					fail.words = {(uint32_t)from};
					break;
				}
			}
			++inconclusive;
			notes.push_back("case " + std::to_string(i) + " of " + subs[k].name + " ended abnormally once and did not reproduce");
			if(inconclusive > 20) { done[w] = true; --left; continue; }
			++gen[w];
			uint64_t ni = i + J;
			if(ni >= n_cases[k]) { if(k + 1 >= subs.size()) { done[w] = true; --left; continue; } start(w, k + 1, w); }
			else start(w, k, ni);
		}
	}
	for(int w = 0; w < J; ++w) if(!done[w] && pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }

	// collect
	std::vector<uint64_t> ev(subs.size(), 0), disc(subs.size(), 0), nt(subs.size(), 0);
	std::vector<std::unordered_set<uint64_t>> hs(subs.size());
	std::map<std::string, uint64_t> labels, known;
	std::vector<std::string> samples;
	uint64_t words = 0;
	for(int w = 0; w < J; ++w)
	for(int g = 0; g <= gen[w]; ++g)
	{
		std::ifstream in(part(w, g));
		std::string line;
		while(std::getline(in, line))
		{
			std::istringstream is(line);
			char t; is >> t;
			if(t == 'H') { uint32_t k; uint64_t h; if(is >> k >> h && k < subs.size()) hs[k].insert(h); }
			else if(t == 'C') { uint32_t k; uint64_t a, b, c, d; is >> k >> a >> b >> c >> d; ev[k] += a; disc[k] += b; nt[k] += c; words += d; }
			else if(t == 'L' || t == 'K') { uint64_t n; is >> n; std::string l; std::getline(is, l); (t == 'L' ? labels : known)[l.substr(1)] += n; }
			else if(t == 'S') samples.push_back(line.substr(2));
		}
		unlink(part(w, g).c_str());
	}
	std::sort(samples.begin(), samples.end());

	int rc = 0;
	std::string fail_json = "null";
	if(fail.set)
	{
		rc = 1;
		const Sub& s = subs[fail.sub];
		int attempts = 0;
		std::ofstream rp(o.tmp + "/replay.txt");
		Outcome fin = fail.first;
		rp << "property " << o.prop << "\nsub " << s.name << "\n";
		if(fail.first.status == 7)
		{
			rp << "range " << o.seed << " " << fail.words[0] << " " << fail.idx << " " << J << "\n";
		}
		else
		{
			std::vector<uint32_t> w = shrink(o, s, fail.words, scratch, fail.first, attempts);
			Outcome q = replay_words(o, s, w, scratch, true);
			if(q.bad()) fin = q; else w = fail.words;
			rp << "words " << w.size();
			for(auto x : w) rp << " " << x;
			rp << "\n";
		}
		rp << "seed " << o.seed << "\ncase " << fail.idx << "\nshrink_attempts " << attempts << "\n";
		auto flat = [](std::string t) { for(auto& c : t) if(c == '\n') c = ' '; return t; };
		rp << "message " << flat(fin.msg) << "\ninput " << flat(fin.desc) << "\n";
		fail_json = "{\"sub\":\"" + esc(s.name) + "\",\"index\":" + std::to_string(fail.idx) + ",\"message\":\"" + esc(fin.msg) + "\",\"input\":\"" + esc(fin.desc) + "\"}";
	}

	std::ofstream js(o.out);
	js << "{\"property\":\"" << o.prop << "\",\"subs\":[";
	for(size_t k = 0; k < subs.size(); ++k)
		js << (k ? "," : "") << "{\"name\":\"" << esc(subs[k].name) << "\",\"rule\":\"" << esc(subs[k].rule) << "\",\"planned\":" << n_cases[k] << ",\"evaluations\":" << ev[k] << ",\"discards\":" << disc[k]
		   << ",\"nontrivial\":" << nt[k] << ",\"distinct_nontrivial\":" << hs[k].size() << "}";
	js << "],\"labels\":{";
	bool f = true;
	for(auto& l : labels) { js << (f ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; f = false; }
	js << "},\"known\":{";
	f = true;
	for(auto& l : known) { js << (f ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; f = false; }
	js << "},\"samples\":[";
	f = true;
	for(auto& s : samples) { js << (f ? "" : ",") << "\"" << s << "\""; f = false; }
	js << "],\"choices\":" << words << ",\"inconclusive\":" << inconclusive << ",\"notes\":[";
	f = true;
	for(auto& s : notes) { js << (f ? "" : ",") << "\"" << esc(s) << "\""; f = false; }
	js << "],\"failure\":" << fail_json << ",\"wall_s\":" << (now() - t0) << "}\n";
	return rc;
}
