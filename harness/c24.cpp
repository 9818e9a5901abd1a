// C24: the simulation program as a whole: arguments in, stream out
#include "stream_util.h"
#include <sys/wait.h>
#include <fcntl.h>

int nbody_simulation_main(int argc, char** argv);	// test/main/main.cpp with main renamed

typedef std::map<std::string, std::string> pmap;

static int run_program(const std::vector<std::string>& args, const std::string& dir)
{
	fflush(nullptr);
	pid_t pid = fork();
	if(pid == 0)
	{
		if(chdir(dir.c_str())) { _exit(90); }
		std::vector<std::string> a(args);
		a.insert(a.begin(), "nbody-simulation");
		std::vector<char*> v;
		for(auto& x : a) { v.push_back(&x[0]); }
		v.push_back(nullptr);
		omp_set_num_threads(1);
		int rc = nbody_simulation_main(static_cast<int>(a.size()), v.data());
		fflush(nullptr);
		_exit(rc == 0 ? 0 : 1);
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 1)) { return WEXITSTATUS(st); }
	return 1000 + st;
}

static std::string text(double v)
{
	char b[64];
	snprintf(b, sizeof b, "%.17g", v);
	return b;
}

struct plan
{
	pmap		engine, solver;
	bool		from_file;
	std::string	file, type;
	size_t		stars;
	double		box, dt, dump;
	qint64		limit;
	bool		clamp, one_step;
};

static void gen_engine(pbt::source& s, plan& p)
{
	switch(s.strat(8))
	{
	case 0: p.engine = {{"engine", "simple"}}; break;
	case 1: p.engine = {{"engine", "openmp"}}; break;
	case 2: p.engine = {{"engine", "block"}}; break;
	case 3: case 4: case 5: case 6:
	{
		static const char* const lay[] = {"tree", "heap", "heap_stackless"};
		static const char* const tr[] = {"cycle", "nested_tree"};
		p.engine = {{"engine", "simple_bh"}, {"tree_layout", lay[s.draw(2)]}, {"traverse_type", tr[s.draw(1)]}, {"distance_to_node_radius_ratio", text(s.positive(1, 20))}};
		p.engine["tree_build_rate"] = std::to_string(s.chance(1, 2) ? 0 : s.range(1, 5));
		if(p.engine["tree_build_rate"] != "0") { p.one_step = false; }
		break;
	}
	default:
		p.engine = {{"engine", "ah"}, {"full_recompute_rate", std::to_string(s.range(1, 6))}, {"max_dist", text(s.positive(0.3, 30))}, {"min_force", text(s.positive(1e-6, 1))}};
		p.one_step = false;
	}
}

static void gen_solver(pbt::source& s, plan& p)
{
	static const char* const names[] = {"euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "trapeze", "adams", "adams", "bs", "rkgl", "rklc"};
	std::string n = names[s.strat(17)];
	p.solver = {{"solver", n}};
	if(s.chance(2, 3)) { p.solver["error_threshold"] = text(s.positive(1e-6, 1)); }
	p.solver["max_recursion"] = std::to_string(s.draw(2));
	if(s.chance(1, 2)) { p.solver["substep_subdivisions"] = std::to_string(s.range(2, 4)); }
	if(s.chance(1, 2)) { p.solver["refine_steps_count"] = std::to_string(s.range(1, 4)); }
	if(s.chance(1, 3)) { p.solver["correction"] = "true"; p.one_step = false; }
	if(n == "adams")
	{
		p.solver["rank"] = std::to_string(s.range(1, 5));
		static const char* const st[] = {"euler", "rk4", "rkdp", "bs", "trapeze"};
		p.solver["starter_solver"] = st[s.draw(4)];
		p.one_step = false;
	}
	if(n == "midpoint-st" || n == "rkgl" || n == "rklc") { p.one_step = false; }
	if(n == "bs" || p.solver["starter_solver"] == "bs") { p.solver["max_level"] = std::to_string(s.range(3, 6)); }
	if(p.solver["starter_solver"].empty()) { p.solver.erase("starter_solver"); }
	p.solver["max_step"] = text(p.dt);
	if(s.chance(1, 2)) { p.solver["min_step"] = text(p.dt * s.positive(1e-4, 2)); }
	p.clamp = s.chance(1, 3);
	if(p.clamp || s.chance(1, 3)) { p.solver["clamp"] = p.clamp ? "true" : "false"; }
}

static std::string initial_file(pbt::source& s, pbt::ctx& c, const std::string& type)
{
	size_t n = s.size(1, 24);
	bodies b = gen_bodies(s, c, n, 3, false);
	double mf = type == "SI" ? 1e10 : type == "ADK" ? 1e33 : 1;
	std::ostringstream o;
	if(type == "Zeno")
	{
		o << n << "\n3\n0\n";
		for(double m : b.m) { o << text(m) << "\n"; }
		for(auto& r : b.r) { o << text(r.x) << " " << text(r.y) << " " << text(r.z) << "\n"; }
		for(auto& r : b.v) { o << text(r.x) << " " << text(r.y) << " " << text(r.z) << "\n"; }
	}
	else
	{
		for(size_t i = 0; i != n; ++i)
		{
			o << text(b.r[i].x) << " " << text(b.r[i].y) << " " << text(b.r[i].z) << " " << text(b.v[i].x) << " " << text(b.v[i].y) << " " << text(b.v[i].z) << " " << text(b.m[i] * mf) << "\n";
		}
	}
	return o.str();
}

static void load(const plan& p, nbody_data& d)
{
	if(p.from_file)
	{
		PBT_CHECK(d.load_initial(QString::fromStdString(p.file), QString::fromStdString(p.type)), "the library cannot load the initial state");
	}
	else { d.make_universe(p.stars, p.box, p.box, p.box); }
}

static mframe take(nbody_data& d)
{
	mframe f;
	f.t = d.get_time();
	f.step = d.get_step();
	for(size_t i = 0; i != d.get_count(); ++i)
	{
		const nbvertex_t& p = d.get_vertites()[i];
		const nbvertex_t& v = d.get_velosites()[i];
		f.r.insert(f.r.end(), {p.x, p.y, p.z});
		f.v.insert(f.v.end(), {v.x, v.y, v.z});
	}
	return f;
}

// the frames the documentation promises, made with the library step by step
static std::vector<mframe> expected(const plan& p, double end, nbody_data& d, bool& finite)
{
	std::vector<mframe> o;
	load(p, d);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(p.engine)));
	std::unique_ptr<nbody_solver> sv(nbody_create_solver(params(p.solver)));
	PBT_CHECK(e && sv && e->init(&d), "the library refuses the parameters");
	sv->set_engine(e.get());
	e->get_data(&d);
	o.push_back(take(d));
	double last = 0;
	while(d.get_time() < end)
	{
		if(p.clamp) { e->clamp(e->get_y(), static_cast<double>(d.get_box_size())); }
		sv->advise(p.dt);
		double t = d.get_time();
		if(t >= last + p.dump - 0.1 * p.dt)
		{
			e->get_data(&d);
			o.push_back(take(d));
			last = t;
		}
	}
	finite = true;
	for(auto& f : o) { for(double x : f.r) { finite = finite && std::isfinite(x); } for(double x : f.v) { finite = finite && std::isfinite(x); } }
	return o;
}

static void shuffle_args(pbt::source& s, std::vector<std::string>& a)
{
	for(size_t i = a.size(); i > 1; --i) { std::swap(a[i - 1], a[s.draw(i - 1)]); }
}

static std::vector<std::string> arguments(pbt::source& s, const plan& p, double end, const std::string& out, const std::string& resume)
{
	std::vector<std::string> a;
	for(auto& k : p.engine) { a.push_back("--" + k.first + "=" + k.second); }
	for(auto& k : p.solver) { a.push_back("--" + k.first + "=" + k.second); }
	a.push_back("--max_time=" + text(end));
	a.push_back("--dump_step=" + text(p.dump));
	a.push_back("--max_part_size=" + std::to_string(p.limit));
	if(resume.empty() || s.chance(1, 3)) { a.push_back("--output=" + (resume.empty() ? out : out + "-ignored")); }
	if(!resume.empty()) { a.push_back("--resume=" + resume); }
	if(p.from_file)
	{
		// ignored when a stream is resumed
		if(resume.empty()) { a.push_back("--initial_state=" + p.file); a.push_back("--initial_type=" + p.type); }
		else if(s.chance(1, 3)) { a.push_back("--initial_state=/nonexistent/file"); }
	}
	else
	{
		a.push_back("--stars_count=" + std::to_string(p.stars));
		a.push_back("--box_size=" + text(p.box));
	}
	static const char* const checks[] = {"PLV", "PLVE", "E", "", "V", "xyz"};
	if(s.chance(1, 2)) { a.push_back(std::string("--check_list=") + checks[s.draw(5)]); }
	a.push_back("--check_step=" + text(s.chance(1, 4) ? 0 : p.dt * s.positive(1, 20)));
	if(s.chance(1, 3)) { a.push_back("--verbose=1"); }
	if(s.chance(1, 3)) { a.push_back("noise"); }
	if(s.chance(1, 4)) { a.push_back("--unknown=7"); }
	shuffle_args(s, a);
	return a;
}

static void compare(const std::string& name, const std::vector<mframe>& want, nbody_data& ref, const std::vector<qint64>& parts, const std::string& id)
{
	nbody_data_stream_reader r;
	PBT_CHECK(0 == r.load(QString::fromStdString(name)), id << ": the stream cannot be read");
	size_t n = ref.get_count();
	std::vector<double> mass(ref.get_mass(), ref.get_mass() + n);
	std::vector<float> color;
	for(size_t i = 0; i != n; ++i) { const nbcolor_t& q = ref.get_color()[i]; color.insert(color.end(), {static_cast<float>(q.x), static_cast<float>(q.y), static_cast<float>(q.z), static_cast<float>(q.w)}); }
	PBT_CHECK(r.get_body_count() == n, id << ": the stream holds " << r.get_body_count() << " bodies instead of " << n);
	nbody_data d;
	d.resize(n);
	for(size_t k = 0; k != std::min(want.size(), static_cast<size_t>(r.get_frame_count())); ++k)
	{
		PBT_CHECK(0 == r.read(&d), id << ": frame " << k << " cannot be read");
		std::string diff = diff_frame(d, n, ref.get_box_size(), mass, color, want[k]);
		PBT_CHECK(diff.empty(), id << ": frame " << k << ": " << diff);
	}
	PBT_CHECK(r.get_frame_count() == want.size(), id << ": " << r.get_frame_count() << " frames instead of " << want.size());
	for(size_t p = 0; p != parts.size(); ++p)
	{
		qint64 sz = QFileInfo(QString::fromStdString(name + std::to_string(p) + ".dat")).size();
		PBT_CHECK(sz == parts[p], id << ": part " << p << " holds " << sz << " bytes instead of " << parts[p]);
	}
	PBT_CHECK(!QFileInfo(QString::fromStdString(name + std::to_string(parts.size()) + ".dat")).exists(), id << ": more than " << parts.size() << " parts");
}

static std::vector<qint64> split(size_t frames, qint64 size, qint64 limit, std::vector<qint64> parts = {0})
{
	for(size_t k = 0; k != frames; ++k)
	{
		if(parts.back() >= limit) { parts.push_back(0); }
		parts.back() += size;
	}
	return parts;
}

static plan gen_plan(pbt::source& s, pbt::ctx& c, const std::string& dir)
{
	plan p;
	p.one_step = true;
	static const double dts[] = {0.125, 0.1, 0.01, 1.0 / 3};
	p.dt = s.chance(1, 3) ? s.positive(1e-3, 0.5) : dts[s.draw(3)];
	gen_engine(s, p);
	gen_solver(s, p);
	p.from_file = s.chance(3, 4);
	p.stars = s.chance(1, 6) ? 65 + s.draw(100) : s.range(1, 64);
	p.box = s.chance(1, 2) ? static_cast<double>(s.range(1, 200)) : s.positive(0.5, 500);
	if(p.from_file)
	{
		static const char* const types[] = {"Zeno", "G1", "SI", "ADK"};
		p.type = types[s.draw(3)];
		p.file = dir + "/initial.txt";
		std::ofstream(p.file) << initial_file(s, c, p.type);
	}
	p.dump = p.dt * (static_cast<double>(1 + s.draw(4)) + (s.chance(1, 2) ? 0 : 0.4 * s.unit()));
	static const qint64 lim[] = {1 << 30, 1, 100, 1000, 10000};
	p.limit = s.chance(1, 2) ? lim[s.draw(4)] : static_cast<qint64>(1 + s.draw(20000));
	return p;
}

static void p_program(pbt::source& s, pbt::ctx& c)
{
	std::string dir = c.workdir + "/f";
	clean_dir(dir);
	plan p = gen_plan(s, c, dir);
	size_t steps = s.draw(p.from_file ? (s.chance(1, 150) ? 300 : 14) : 3);
	double end = p.dt * (static_cast<double>(steps) - 0.5);
	bool nested = s.chance(1, 6);
	std::string out = nested ? "sub/dir/st" : s.chance(1, 2) ? "st" : dir + "/out with space";
	std::string full = out[0] == '/' ? out : dir + "/" + out;
	if(nested && s.chance(1, 2)) { QDir().mkpath(QString::fromStdString(dir + "/sub/dir")); }
	std::vector<std::string> a = arguments(s, p, end, out, "");
	std::ostringstream id;
	for(auto& x : a) { id << x << " "; }
	nbody_data ref;
	bool finite = true;
	std::vector<mframe> want = expected(p, end, ref, finite);
	if(!finite) { throw pbt::discard(); }
	int rc = run_program(a, dir);
	PBT_CHECK(rc == 0, id.str() << ": exit status " << rc);
	qint64 fs = static_cast<qint64>(48 * ref.get_count());
	std::vector<qint64> parts = split(want.size(), fs, p.limit);
	compare(full, want, ref, parts, id.str());
	c.label(p.solver["solver"]);
	c.label(p.engine["engine"]);
	c.label(p.from_file ? p.type : std::string("universe"));
	if(parts.size() > 1) { c.label("several parts"); }
	if(want.size() > 2) { c.nontrivial(); }
	// resumptions
	size_t more = s.draw(2);
	for(size_t k = 0; k != more && p.one_step && !want.empty(); ++k)
	{
		// resume at a frame: what was computed after the last frame is computed again
		steps += s.draw(8);
		end = p.dt * (static_cast<double>(steps) - 0.5);
		p.limit = s.chance(1, 2) ? p.limit : static_cast<qint64>(1 + s.draw(20000));
		size_t had = want.size();
		nbody_data ref2;
		want = expected(p, end, ref2, finite);
		if(!finite) { break; }
		a = arguments(s, p, end, out, out);
		id << "; then ";
		for(auto& x : a) { id << x << " "; }
		rc = run_program(a, dir);
		PBT_CHECK(rc == 0, id.str() << ": exit status " << rc);
		parts = split(want.size() - had, fs, p.limit, parts);
		compare(full, want, ref2, parts, id.str());
		PBT_CHECK(!QFileInfo(QString::fromStdString(full + "-ignored.idx")).exists(), id.str() << ": the output argument was not ignored");
		c.label("resumed");
	}
	if(c.verbose) { c.text << id.str() << " -> " << want.size() << " frames, " << parts.size() << " parts"; }
	clean_dir(dir);
}

static std::map<std::string, std::string> snapshot(const std::string& dir)
{
	std::map<std::string, std::string> o;
	QDir d(QString::fromStdString(dir));
	for(auto& f : d.entryList(QDir::Files))
	{
		std::ifstream i(dir + "/" + f.toStdString(), std::ios::binary);
		std::stringstream b;
		b << i.rdbuf();
		o[f.toStdString()] = b.str();
	}
	return o;
}

static void p_refuse(pbt::source& s, pbt::ctx& c)
{
	std::string dir = c.workdir + "/f";
	clean_dir(dir);
	plan p = gen_plan(s, c, dir);
	size_t steps = s.draw(4);
	double end = p.dt * (static_cast<double>(steps) - 0.5);
	std::string out = dir + "/st", resume;
	bool victim = s.chance(1, 2);
	if(victim)
	{
		// an earlier stream is there
		plan q = p;
		q.engine = {{"engine", "simple"}};
		q.solver = {{"solver", "euler"}, {"max_step", text(p.dt)}};
		int rc = run_program(arguments(s, q, end, out, ""), dir);
		PBT_CHECK(rc == 0, "the first run failed with " << rc);
	}
	std::string why;
	bool keeps = true;	// the earlier stream must be as it was
	switch(s.strat(9))
	{
	case 0: p.engine["engine"] = s.chance(1, 2) ? "Simple" : "magic"; why = "unknown engine"; break;
	case 1: p.engine.erase("engine"); why = "no engine"; break;
	case 2: p.solver["solver"] = s.chance(1, 2) ? "rk5" : "Euler"; why = "unknown solver"; break;
	case 3: p.solver.erase("solver"); why = "no solver"; break;
	case 4: p.from_file = true; p.file = dir + "/missing.txt"; p.type = "G1"; why = "initial state missing"; break;
	case 5:
	{
		p.from_file = true;
		p.type = "G1";
		p.file = dir + "/bad.txt";
		static const char* const bad[] = {"1 2 3 4 5 6 7\n1 2 3\n", "1 2 3 4 5 6 x\n", "a b c\n"};
		std::ofstream(p.file) << bad[s.draw(2)];
		why = "initial state malformed";
		break;
	}
	case 6: p.from_file = true; p.file = dir + "/initial2.txt"; p.type = s.chance(1, 2) ? "G2" : "snap"; std::ofstream(p.file) << "1 2 3 4 5 6 7\n"; why = "unknown type"; break;
	case 7: resume = dir + "/nothing"; why = "no stream to resume"; break;
	default:
		std::ofstream(dir + "/file") << "x";
		out = dir + "/file/st";
		why = "output below a file";
	}
	std::vector<std::string> a = arguments(s, p, end, out, resume);
	if(!resume.empty()) { for(auto& x : a) { if(x.compare(0, 9, "--output=") == 0) { x = "--output=" + out; } } }
	std::ostringstream id;
	id << why << ": ";
	for(auto& x : a) { id << x << " "; }
	auto before = snapshot(dir);
	int rc = run_program(a, dir);
	PBT_CHECK(rc == 1, id.str() << ": exit status " << rc);
	auto after = snapshot(dir);
	if(keeps) { PBT_CHECK(before == after, id.str() << ": files of an earlier stream changed, or a stream was made"); }
	if(!victim)
	{
		nbody_data_stream_reader r;
		PBT_CHECK(0 != r.load(QString::fromStdString(out)), id.str() << ": a stream was made");
	}
	c.label(why);
	c.nontrivial();
	if(c.verbose) { c.text << id.str(); }
	clean_dir(dir);
}

int main(int argc, char** argv)
{
	quiet_qt();
	omp_set_num_threads(1);
	return pbt::runner({{"program", p_program, 3500, 200000, 0, 60, false}, {"refuse", p_refuse, 2000, 40000, 0, 60, false}}).main(argc, argv);
}
