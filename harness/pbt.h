// Small property-based testing engine: choice-sequence generation with
// integrated shrinking, forked workers (a crash, sanitizer report or hang of
// the code under test is an ordinary failing case), replay files.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>

namespace pbt {

struct failure
{
	std::string msg;
};
struct discard {};

inline double now()
{
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

static const size_t MAX_CHOICES = 1 << 20;

// Shared between parent and one worker
struct slot
{
	volatile uint64_t	case_id;	// index of the running case + 1, 0 when idle
	volatile double		started;
	volatile uint64_t	n;
	char				msg[4096];
	uint64_t			choices[MAX_CHOICES];
};

class source
{
public:
	std::vector<uint64_t>	ch;
	size_t					pos;
	bool					replay;
	uint64_t				rng;
	uint64_t				index;
	slot*					sl;
	source() : pos(0), replay(false), rng(0), index(0), sl(nullptr) {}

	// uniform in [0, n]
	uint64_t draw(uint64_t n)
	{
		if(pos >= MAX_CHOICES)
		{
			throw discard();
		}
		uint64_t v;
		if(replay)
		{
			v = pos < ch.size() ? std::min(ch[pos], n) : 0;
		}
		else
		{
			rng += 0x9e3779b97f4a7c15ULL;
			v = mix(rng);
			v = (n == UINT64_MAX) ? v : v % (n + 1);
		}
		put(v);
		return v;
	}
	// value taken from the case index (even coverage of a small set of alternatives)
	uint64_t strat(uint64_t n, uint64_t stride = 1)
	{
		if(replay)
		{
			return draw(n - 1);
		}
		uint64_t v = (index / stride) % n;
		put(v);
		return v;
	}
	int64_t range(int64_t lo, int64_t hi)
	{
		return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
	}
	// true with probability num/den; shrinks to false
	bool chance(uint64_t num, uint64_t den)
	{
		return draw(den - 1) >= den - num;
	}
	double unit()	// [0,1), 32 bits
	{
		return draw(0xffffffffULL) / 4294967296.0;
	}
	template<class T> const T& pick(const std::vector<T>& v)
	{
		return v[draw(v.size() - 1)];
	}
	// size in [lo, hi], small sizes preferred
	size_t size(size_t lo, size_t hi)
	{
		if(hi <= lo)
		{
			return lo;
		}
		uint64_t k = draw(3);
		uint64_t span = hi - lo;
		if(k == 0) { span = std::min<uint64_t>(span, 3); }
		else if(k == 1) { span = std::min<uint64_t>(span, 12); }
		else if(k == 2) { span = std::min<uint64_t>(span, std::max<uint64_t>(12, span / 3)); }
		return lo + draw(span);
	}
	// integer-valued, dyadic or general number of magnitude about 'scale', shrinks to 0
	double number(double scale = 10)
	{
		switch(draw(5))
		{
		case 0:
			return static_cast<double>(range(-3, 3)) ;
		case 1:
			return scale * static_cast<double>(range(-8, 8)) / 8;
		default:
			return scale * (2 * unit() - 1);
		}
	}
	double positive(double lo, double hi)	// log-uniform, shrinks to lo
	{
		return lo * std::pow(hi / lo, unit());
	}
	// any finite double over the whole range
	double any_finite()
	{
		switch(draw(7))
		{
		case 0: return static_cast<double>(range(-5, 5));
		case 1: return number(1);
		case 2: return number(1e6);
		case 3: return std::ldexp(2 * unit() - 1, static_cast<int>(range(-40, 40)));
		case 4: return std::ldexp(2 * unit() - 1, static_cast<int>(range(-1070, 1023)));
		case 5:
		{
			static const double special[] = {0.0, -0.0, 1.0 / 3.0, 0.1, 1e-300, 4.9406564584124654e-324,
				2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.30000000000000004, 1e15 + 0.3,
				9007199254740993.0, 5e-324, 1.0000000000000002, 0.99999999999999989};
			return special[draw(sizeof(special) / sizeof(special[0]) - 1)];
		}
		default:
		{
			uint64_t b = draw(UINT64_MAX);
			double d;
			memcpy(&d, &b, 8);
			if(!std::isfinite(d)) { return 1.5; }
			return d;
		}
		}
	}
private:
	void put(uint64_t v)
	{
		if(pos < ch.size()) { ch[pos] = v; }
		else { ch.push_back(v); }
		if(sl)
		{
			sl->choices[pos] = v;
			sl->n = pos + 1;
		}
		++pos;
	}
};

class ctx
{
public:
	bool									verbose;
	std::string								tier;
	std::map<std::string, uint64_t>			labels;
	bool									nontriv;
	std::ostringstream						text;
	std::string								workdir;	// private scratch folder of this process
	ctx() : verbose(false), nontriv(false) { text.precision(17); }
	void label(const std::string& l)
	{
		++labels[l];
	}
	void nontrivial()
	{
		nontriv = true;
	}
	bool thorough() const
	{
		return tier == "thorough";
	}
};

[[noreturn]] inline void fail(const std::string& m)
{
	throw failure{m};
}

#define PBT_CHECK(cond, stream) \
	do { if(!(cond)) { std::ostringstream pbt_os; pbt_os.precision(17); pbt_os << stream; throw pbt::failure{pbt_os.str()}; } } while(0)

typedef void (*prop_fn)(source& s, ctx& c);

struct prop
{
	const char*	name;
	prop_fn		fn;
	uint64_t	quick;
	uint64_t	thorough;
	int			max_workers;	// 0: default
	double		hang_s;			// wall seconds a single case may take
	bool		schedule;		// failure may depend on scheduling: many replays, one reproduction is enough
};

inline std::string json_str(const std::string& s)
{
	std::string o = "\"";
	for(unsigned char ch : s)
	{
		if(ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
		else if(ch == '\n') { o += "\\n"; }
		else if(ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
		else { o += static_cast<char>(ch); }
	}
	return o + "\"";
}

inline uint64_t hash_seq(const std::vector<uint64_t>& v)
{
	uint64_t h = 0x1234567;
	for(uint64_t x : v) { h = mix(h ^ x); }
	return h;
}

class runner
{
	std::vector<prop>	m_props;
	uint64_t			m_seed;
	std::string			m_tier;
	std::string			m_tmp;
	std::string			m_out;
	std::string			m_replay_out;
	int					m_workers;
	double				m_budget;
	double				m_scale;
	std::vector<slot*>	m_slots;
	std::set<std::string> m_only;

	// statistics
	uint64_t						m_evals, m_discards;
	std::unordered_set<uint64_t>	m_distinct;
	std::map<std::string, uint64_t>	m_labels;
	std::map<std::string, uint64_t>	m_cases;
	std::vector<std::string>		m_samples;
	bool							m_cut;
	int								m_unrepro, m_hangs;
public:
	explicit runner(const std::vector<prop>& p) : m_props(p), m_seed(1), m_tier("quick"), m_tmp("/tmp"), m_workers(8),
		m_budget(240), m_scale(1), m_evals(0), m_discards(0), m_cut(false), m_unrepro(0), m_hangs(0) {}

	static std::string fmt_case(const std::string& pname, const std::vector<uint64_t>& ch)
	{
		std::ostringstream o;
		o << "prop " << pname << "\nchoices";
		for(uint64_t x : ch) { o << " " << x; }
		o << "\n";
		return o.str();
	}

	int main(int argc, char** argv)
	{
		std::string replay;
		for(int i = 1; i < argc; ++i)
		{
			std::string a(argv[i]);
			auto val = [&](const char* n, std::string & dst)
			{
				std::string p = std::string("--") + n + "=";
				if(a.compare(0, p.size(), p) == 0) { dst = a.substr(p.size()); return true; }
				return false;
			};
			std::string v;
			if(val("seed", v)) { m_seed = strtoull(v.c_str(), nullptr, 10); }
			else if(val("tier", v)) { m_tier = v; }
			else if(val("tmp", v)) { m_tmp = v; }
			else if(val("out", v)) { m_out = v; }
			else if(val("replay-out", v)) { m_replay_out = v; }
			else if(val("workers", v)) { m_workers = atoi(v.c_str()); }
			else if(val("budget", v)) { m_budget = atof(v.c_str()); }
			else if(val("scale", v)) { m_scale = atof(v.c_str()); }
			else if(val("replay", v)) { replay = v; }
			else if(val("only", v)) { m_only.insert(v); }
		}
		if(!replay.empty()) { return do_replay(replay); }
		for(int w = 0; w < m_workers + 1; ++w)
		{
			void* p = mmap(nullptr, sizeof(slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			if(p == MAP_FAILED) { perror("mmap"); return 2; }
			m_slots.push_back(static_cast<slot*>(p));
		}
		double t0 = now();
		double total = 0;
		for(auto& p : m_props) { if(m_only.empty() || m_only.count(p.name)) { total += 1; } }
		size_t done = 0;
		int rc = 0;
		for(auto& p : m_props)
		{
			if(!m_only.empty() && !m_only.count(p.name)) { continue; }
			++done;
			double deadline = t0 + m_budget * done / total;
			double tp = now();
			rc = run_prop(p, deadline);
			fprintf(stderr, "[pbt] %s: %llu cases, %.1f s\n", p.name, static_cast<unsigned long long>(m_cases[p.name]), now() - tp);
			if(rc != 0) { break; }
		}
		write_out(now() - t0, rc);
		return rc;
	}
private:
	uint64_t case_seed(const prop& p, uint64_t idx) const
	{
		uint64_t h = mix(m_seed * 1000003ULL + 17);
		for(const char* c = p.name; *c; ++c) { h = mix(h ^ static_cast<unsigned char>(*c)); }
		return mix(h ^ mix(idx));
	}

	static void setup_child(const std::string& wd)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		mkdir(wd.c_str(), 0777);
		if(chdir(wd.c_str()) != 0) { _exit(97); }
	}

	// returns 0 ok, 1 failed, 2 discarded
	int exec_case(const prop& p, source& s, ctx& c, std::string& msg)
	{
		try
		{
			p.fn(s, c);
		}
		catch(const failure& f)
		{
			msg = f.msg;
			return 1;
		}
		catch(const discard&)
		{
			return 2;
		}
		catch(const std::exception& e)
		{
			msg = std::string("uncaught exception: ") + e.what();
			return 1;
		}
		return 0;
	}

	void worker(const prop& p, int w, int nw, uint64_t first, uint64_t ncases, double deadline)
	{
		std::string wd = m_tmp + "/w" + std::to_string(w);
		setup_child(wd);
		slot* sl = m_slots[w];
		std::map<std::string, uint64_t> labels;
		std::vector<uint64_t> hashes;
		std::vector<std::string> samples;
		uint64_t evals = 0, disc = 0;
		bool cut = false;
		for(uint64_t idx = first; idx < ncases; idx += nw)
		{
			if(now() > deadline) { cut = true; break; }
			source s;
			s.index = idx;
			s.rng = case_seed(p, idx);
			s.sl = sl;
			ctx c;
			c.tier = m_tier;
			c.workdir = wd;
			c.verbose = samples.size() < 2;
			sl->n = 0;
			sl->started = now();
			sl->case_id = idx + 1;
			std::string msg;
			int r = exec_case(p, s, c, msg);
			sl->case_id = 0;
			if(r == 1)
			{
				snprintf(sl->msg, sizeof(sl->msg), "%s", msg.c_str());
				sl->case_id = idx + 1;
				_exit(41);
			}
			if(r == 2) { ++disc; continue; }
			++evals;
			for(auto& l : c.labels) { labels[l.first] += l.second; }
			if(c.nontriv)
			{
				hashes.push_back(hash_seq(s.ch) ^ mix(reinterpret_cast<uintptr_t>(p.name) * 0 + std::hash<std::string>()(p.name)));
				if(samples.size() < 2 && !c.text.str().empty()) { samples.push_back(std::string(p.name) + ": " + c.text.str()); }
			}
		}
		std::ofstream o((m_tmp + "/stats" + std::to_string(w)).c_str());
		o << evals << " " << disc << " " << (cut ? 1 : 0) << "\n";
		o << labels.size() << "\n";
		for(auto& l : labels) { o << l.second << " " << l.first << "\n"; }
		o << hashes.size() << "\n";
		for(uint64_t h : hashes) { o << h << "\n"; }
		o << samples.size() << "\n";
		for(auto& x : samples) { o << x.size() << "\n" << x << "\n"; }
		o.close();
		fflush(stdout);
		fflush(stderr);
		_exit(o.good() ? 40 : 98);
	}

	void merge(const prop& p, int w)
	{
		std::ifstream i((m_tmp + "/stats" + std::to_string(w)).c_str());
		uint64_t e = 0, d = 0, cut = 0, n = 0;
		i >> e >> d >> cut >> n;
		m_evals += e;
		m_cases[p.name] += e;
		m_discards += d;
		if(cut) { m_cut = true; }
		std::string line;
		for(uint64_t k = 0; k < n; ++k)
		{
			uint64_t v;
			i >> v;
			i.get();
			std::getline(i, line);
			m_labels[std::string(p.name) + "/" + line] += v;
		}
		i >> n;
		for(uint64_t k = 0; k < n; ++k) { uint64_t h; i >> h; m_distinct.insert(h); }
		i >> n;
		for(uint64_t k = 0; k < n; ++k)
		{
			size_t sz;
			i >> sz;
			i.get();
			std::string x(sz, ' ');
			i.read(&x[0], static_cast<std::streamsize>(sz));
			i.get();
			if(w < 1 || m_samples.size() < 2) { m_samples.push_back(x); }
		}
		unlink((m_tmp + "/stats" + std::to_string(w)).c_str());
	}

	static std::string status_text(int st)
	{
		if(WIFSIGNALED(st)) { return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"; }
		return std::string("exit status ") + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or abort)";
	}

	int run_prop(const prop& p, double deadline)
	{
		uint64_t ncases = static_cast<uint64_t>(std::ceil(m_scale * (m_tier == "thorough" ? p.thorough : p.quick)));
		int nw = p.max_workers > 0 ? std::min(p.max_workers, m_workers) : m_workers;
		std::vector<pid_t> pid(nw, -1);
		std::vector<uint64_t> next(nw);
		int alive = 0;
		auto start = [&](int w)
		{
			m_slots[w]->case_id = 0;
			m_slots[w]->started = now();
			fflush(stdout);
			fflush(stderr);
			pid_t c = fork();
			if(c == 0) { worker(p, w, nw, next[w], ncases, deadline); _exit(99); }
			pid[w] = c;
			++alive;
		};
		for(int w = 0; w < nw; ++w) { next[w] = w; start(w); }
		int result = 0;
		while(alive > 0)
		{
			usleep(2000);
			for(int w = 0; w < nw; ++w)
			{
				if(pid[w] < 0) { continue; }
				int st = 0;
				pid_t r = waitpid(pid[w], &st, WNOHANG);
				bool hang = false;
				if(r == 0)
				{
					if(m_slots[w]->case_id != 0 && now() - m_slots[w]->started > p.hang_s)
					{
						kill(pid[w], SIGKILL);
						waitpid(pid[w], &st, 0);
						hang = true;
					}
					else { continue; }
				}
				pid[w] = -1;
				--alive;
				if(!hang && WIFEXITED(st) && WEXITSTATUS(st) == 40) { merge(p, w); continue; }
				uint64_t id = m_slots[w]->case_id;
				if(id == 0)
				{
					// died outside a case: treat as infrastructure problem, retry what is left
					fprintf(stderr, "[pbt] worker %d died outside a case: %s\n", w, status_text(st).c_str());
					if(++m_unrepro > 5) { result = 3; continue; }
					start(w);
					continue;
				}
				std::string msg = hang ? "case did not terminate" :
								  (WIFEXITED(st) && WEXITSTATUS(st) == 41) ? std::string(m_slots[w]->msg) : status_text(st);
				std::vector<uint64_t> ch(m_slots[w]->choices, m_slots[w]->choices + m_slots[w]->n);
				++m_evals;
				if(result == 0)
				{
					// stop the others
					for(int k = 0; k < nw; ++k)
					{
						if(pid[k] > 0)
						{
							kill(pid[k], SIGKILL);
							waitpid(pid[k], &st, 0);
							pid[k] = -1;
							--alive;
							next[k] = m_slots[k]->case_id ? m_slots[k]->case_id - 1 : next[k];
						}
					}
					if(handle_failure(p, ch, msg)) { return 1; }
					fprintf(stderr, "[pbt] %s: case %llu did not reproduce (%s); continuing\n", p.name,
							static_cast<unsigned long long>(id), msg.c_str());
					if(!hang && ++m_unrepro > 5)
					{
						// wrong results again and again, each depending on something outside the case (uninitialised memory, timing)
						save_failure(p, ch, msg + " (seen repeatedly, not in every repetition)");
						return 1;
					}
					if(hang && ++m_hangs > 5) { return 3; }
					for(int k = 0; k < nw; ++k)
					{
						if(k == w) { next[k] = id - 1 + nw; }
						if(next[k] < ncases) { start(k); }
					}
				}
			}
		}
		return result;
	}

	// run one candidate in a child; true if it fails. 'ch' becomes the normalised sequence
	bool fails(const prop& p, std::vector<uint64_t>& ch, std::string& msg, double limit)
	{
		slot* sl = m_slots[m_workers];
		sl->n = 0;
		sl->case_id = 0;
		sl->msg[0] = 0;
		fflush(stdout);
		fflush(stderr);
		pid_t c = fork();
		if(c == 0)
		{
			std::string wd = m_tmp + "/wr";
			setup_child(wd);
			if(getenv("PBT_QUIET_SHRINK")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
			source s;
			s.replay = true;
			s.ch = ch;
			s.sl = sl;
			ctx cx;
			cx.tier = m_tier;
			cx.workdir = wd;
			std::string m;
			int r = exec_case(p, s, cx, m);
			if(r == 1) { snprintf(sl->msg, sizeof(sl->msg), "%s", m.c_str()); }
			_exit(r == 1 ? 41 : 40);
		}
		double t0 = now();
		int st = 0;
		bool hang = false;
		while(true)
		{
			pid_t r = waitpid(c, &st, WNOHANG);
			if(r == c) { break; }
			if(now() - t0 > limit)
			{
				kill(c, SIGKILL);
				waitpid(c, &st, 0);
				hang = true;
				break;
			}
			usleep(200);
		}
		bool failed;
		if(hang) { msg = "case did not terminate"; failed = true; }
		else if(WIFEXITED(st) && WEXITSTATUS(st) == 40) { failed = false; }
		else if(WIFEXITED(st) && WEXITSTATUS(st) == 41) { failed = true; msg = sl->msg; }
		else { failed = true; msg = status_text(st); }
		if(failed) { ch.assign(sl->choices, sl->choices + sl->n); }
		return failed;
	}

	bool handle_failure(const prop& p, std::vector<uint64_t> ch, std::string msg)
	{
		fprintf(stderr, "[pbt] %s: failing case (%s), confirming\n", p.name, msg.c_str());
		bool hang = msg == "case did not terminate";
		double limit = hang ? p.hang_s * 2 : p.hang_s;
		// one reproduction in a fresh process is enough; a failure that depends on scheduling gets more tries
		int need = 1, tries = p.schedule ? 60 : (hang ? 2 : 6), ok = 0;
		for(int k = 0; k < tries && ok < need; ++k)
		{
			std::vector<uint64_t> c2(ch);
			std::string m2;
			if(fails(p, c2, m2, limit)) { ++ok; msg = m2; ch = c2; }
		}
		if(ok < need) { return false; }
		std::vector<uint64_t> best = ch;
		std::string best_msg = msg;
		if(!p.schedule && !hang) { shrink(p, best, best_msg); }
		// final confirmation of the shrunk case
		if(best != ch)
		{
			for(int k = 0; k < 3; ++k)
			{
				std::vector<uint64_t> c2(best);
				std::string m2;
				if(!fails(p, c2, m2, p.hang_s)) { best = ch; best_msg = msg; break; }
			}
		}
		save_failure(p, best, best_msg);
		return true;
	}

	void save_failure(const prop& p, const std::vector<uint64_t>& ch, const std::string& msg)
	{
		std::string out = m_replay_out.empty() ? m_tmp + "/replay.txt" : m_replay_out;
		std::ofstream o(out.c_str());
		o << fmt_case(p.name, ch) << "tier " << m_tier << "\nmessage " << msg << "\n";
		o.close();
		printf("FAIL %s: %s\n", p.name, msg.c_str());
		fflush(stdout);
	}

	void shrink(const prop& p, std::vector<uint64_t>& best, std::string& best_msg)
	{
		double t_end = now() + 20;
		int budget = 2500;
		auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b)
		{
			if(a.size() != b.size()) { return a.size() < b.size(); }
			return a < b;
		};
		auto attempt = [&](std::vector<uint64_t> cand)
		{
			if(budget <= 0 || now() > t_end) { return false; }
			if(!better(cand, best)) { return false; }
			--budget;
			std::string m;
			if(fails(p, cand, m, p.hang_s) && m != "case did not terminate" && better(cand, best))
			{
				best = cand;
				best_msg = m;
				return true;
			}
			return false;
		};
		bool progress = true;
		while(progress && budget > 0 && now() < t_end)
		{
			progress = false;
			for(size_t k = best.size() / 2; k >= 1; k /= 2)
			{
				if(attempt(std::vector<uint64_t>(best.begin(), best.begin() + static_cast<long>(k)))) { progress = true; }
			}
			for(size_t blk = std::max<size_t>(1, best.size() / 2); blk >= 1; blk = (blk > 8 ? blk / 2 : blk - 1))
			{
				for(size_t i = 0; i + blk <= best.size();)
				{
					std::vector<uint64_t> c(best);
					c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + blk));
					if(attempt(c)) { progress = true; }
					else { i += blk; }
					if(budget <= 0 || now() > t_end) { return; }
				}
				if(blk == 1) { break; }
			}
			for(size_t blk = 32; blk >= 1; blk /= 2)
			{
				for(size_t i = 0; i < best.size(); i += blk)
				{
					std::vector<uint64_t> c(best);
					for(size_t k = i; k < std::min(best.size(), i + blk); ++k) { c[k] = 0; }
					if(c != best && attempt(c)) { progress = true; }
				}
			}
			for(size_t i = 0; i < best.size(); ++i)
			{
				uint64_t lo = 0;
				int steps = 0;
				while(i < best.size() && best[i] > lo && steps++ < 12)
				{
					std::vector<uint64_t> c(best);
					uint64_t mid = lo + (best[i] - lo) / 2;
					c[i] = mid;
					if(attempt(c)) { progress = true; }
					else { lo = mid + 1; }
				}
			}
		}
	}

	int do_replay(const std::string& file)
	{
		std::ifstream i(file.c_str());
		std::string line, pname, tier = m_tier;
		std::vector<uint64_t> ch;
		while(std::getline(i, line))
		{
			if(line.compare(0, 5, "prop ") == 0) { pname = line.substr(5); }
			else if(line.compare(0, 5, "tier ") == 0) { tier = line.substr(5); }
			else if(line.compare(0, 7, "choices") == 0)
			{
				std::istringstream is(line.substr(7));
				uint64_t v;
				while(is >> v) { ch.push_back(v); }
			}
		}
		for(auto& p : m_props)
		{
			if(pname != p.name) { continue; }
			int reps = p.schedule ? 60 : 1;
			for(int k = 0; k < reps; ++k)
			{
				source s;
				s.replay = true;
				s.ch = ch;
				ctx c;
				c.tier = tier;
				c.verbose = true;
				c.workdir = m_tmp + "/wreplay";
				mkdir(c.workdir.c_str(), 0777);
				if(chdir(c.workdir.c_str()) != 0) { return 2; }
				std::string msg;
				int r = exec_case(p, s, c, msg);
				if(k == 0) { printf("case: %s\n", c.text.str().c_str()); }
				if(r == 1)
				{
					printf("FAIL %s: %s\n", p.name, msg.c_str());
					return 1;
				}
			}
			printf("PASS %s\n", p.name);
			return 0;
		}
		fprintf(stderr, "unknown property in replay file\n");
		return 2;
	}

	void write_out(double wall, int rc)
	{
		if(m_out.empty()) { return; }
		std::ofstream o(m_out.c_str());
		o << "{\"evaluations\": " << m_evals << ", \"distinct_nontrivial\": " << m_distinct.size()
		  << ", \"discarded\": " << m_discards << ", \"cut_by_time\": " << (m_cut ? "true" : "false")
		  << ", \"not_reproduced\": " << m_unrepro << ", \"rc\": " << rc << ", \"search_s\": " << wall << ",\n \"cases\": {";
		bool first = true;
		for(auto& c : m_cases) { o << (first ? "" : ", ") << json_str(c.first) << ": " << c.second; first = false; }
		o << "},\n \"labels\": {";
		first = true;
		for(auto& c : m_labels) { o << (first ? "" : ", ") << json_str(c.first) << ": " << c.second; first = false; }
		o << "},\n \"samples\": [";
		for(size_t k = 0; k < m_samples.size() && k < 12; ++k)
		{
			o << (k ? ", " : "") << json_str(m_samples[k].substr(0, 1500));
		}
		o << "]}\n";
	}
};

} // namespace pbt

#endif
