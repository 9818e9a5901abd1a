// C19: command line parser against a model; factories against directly built objects; destruction at any stage
#include "ode_engine.h"
#include "nbody_arg_parser.h"
#include "nbody_step_visitor.h"
#include "nbody_engine_opencl_bh.h"

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

static QVariantMap parse(const std::vector<std::string>& args)
{
	std::vector<char*> argv;
	std::string prog("program");
	argv.push_back(&prog[0]);
	std::vector<std::string> copy(args);
	for(auto& a : copy) { argv.push_back(&a[0]); }
	argv.push_back(nullptr);
	return nbody_parse_arguments(static_cast<int>(argv.size()) - 1, argv.data());
}

static std::string show(const std::vector<std::string>& a)
{
	std::string o;
	for(auto& s : a) { o += " '" + s + "'"; }
	return o;
}

// ------------------------------------------------------------------ parser
static void args(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<std::string> words{"engine", "solver", "max_step", "output", "a", "b", "", "-", "x y", "\xd0\xb8\xd0\xbc\xd1\x8f", "1e-3", "/tmp/s", "0:0,1;1:2", "-5", "--c", ".", "rank", "ENGINE", "%1", "\t", "\"q\""};
	size_t n = s.size(0, 24);
	std::vector<std::string> argv;
	pmap want;
	size_t accepted = 0, rejected = 0;
	for(size_t i = 0; i != n; ++i)
	{
		std::string a;
		uint64_t pre = s.draw(7);
		std::string prefix = pre < 5 ? "--" : pre == 5 ? "-" : pre == 6 ? "" : "---";
		a = prefix + s.pick(words);
		uint64_t eq = s.draw(7);
		size_t parts = eq < 5 ? 1 : eq == 5 ? 0 : static_cast<size_t>(s.range(2, 3));
		for(size_t k = 0; k != parts; ++k) { a += (k + 1 < parts && s.chance(1, 2) ? "==" : "=") + s.pick(words); }
		argv.push_back(a);
		bool dd = a.compare(0, 2, "--") == 0;
		std::string rest = dd ? a.substr(2) : "";
		size_t cnt = static_cast<size_t>(std::count(rest.begin(), rest.end(), '='));
		if(dd && cnt == 1)
		{
			size_t p = rest.find('=');
			want[rest.substr(0, p)] = rest.substr(p + 1);
			++accepted;
		}
		else { ++rejected; }
	}
	c.text << show(argv);
	QVariantMap got = parse(argv);
	PBT_CHECK(static_cast<size_t>(got.size()) == want.size(), "the arguments define " << want.size() << " parameters, " << got.size() << " were found");
	for(auto& w : want)
	{
		QString k = QString::fromUtf8(w.first.c_str());
		PBT_CHECK(got.contains(k), "parameter '" << w.first << "' was lost");
		PBT_CHECK(got.value(k).toString().toUtf8().toStdString() == w.second, "parameter '" << w.first << "' has the value '" << got.value(k).toString().toUtf8().toStdString() << "' instead of '" << w.second << "'");
	}
	if(accepted >= 2 && rejected >= 1) { c.nontrivial(); }
}

// a parameter given in text form with probability 'num/4'; otherwise the default value
static double opt(pbt::source& s, pmap& p, const char* name, double dflt, double value, bool give)
{
	(void)s;
	if(!give) { return dflt; }
	p[name] = num(value);
	return value;
}
static bool opt_bool(pbt::source& s, pmap& p, const char* name)
{
	uint64_t k = s.draw(5);
	if(k < 2) { return false; }
	static const char* const t[] = {"1", "true", "0", "false"};
	p[name] = t[k - 2];
	return k < 4;
}

// the parameters as command line arguments in a generated order, with noise between
static QVariantMap via_command_line(pbt::source& s, const pmap& p, pbt::ctx& c)
{
	std::vector<std::string> a;
	for(auto& k : p)
	{
		if(s.chance(1, 6)) { a.push_back("--" + k.first + "=overridden"); }
	}
	std::vector<std::string> b;
	for(auto& k : p) { b.push_back("--" + k.first + "=" + k.second); }
	for(size_t i = b.size(); i > 1; --i) { std::swap(b[i - 1], b[s.draw(i - 1)]); }
	for(auto& x : b)
	{
		a.push_back(x);
		if(s.chance(1, 5)) { a.push_back(s.pick(std::vector<std::string>{"--unrelated=1", "-max_step=9", "engine=simple", "--solver", "--rank=2=3"})); }
	}
	c.text << show(a);
	return parse(a);
}

// ------------------------------------------------------------------ engines
static void engines(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<std::string> good{"ah", "block", "openmp", "simple", "simple_bh", "simple_bh", "ah"};
	pmap p;
	std::unique_ptr<nbody_engine> want;
	std::string type = good[s.strat(good.size())];
	bool valid = true, exact = true;
	p["engine"] = type;
	if(type == "ah")
	{
		size_t rate = static_cast<size_t>(opt(s, p, "full_recompute_rate", 1000, static_cast<double>(s.range(1, 6)), s.chance(2, 3)));
		double dist = opt(s, p, "max_dist", 10, s.positive(0.3, 30), s.chance(2, 3));
		double force = opt(s, p, "min_force", 1e-4, s.positive(1e-6, 1), s.chance(2, 3));
		want.reset(new nbody_engine_ah(rate, dist, force));
	}
	else if(type == "simple_bh")
	{
		double ratio = opt(s, p, "distance_to_node_radius_ratio", 10, s.positive(0.7, 100), s.chance(2, 3));
		size_t rate = static_cast<size_t>(opt(s, p, "tree_build_rate", 0, s.chance(1, 5) ? (s.chance(1, 2) ? 256.0 : 65536.0) * static_cast<double>(1 + s.draw(3)) : static_cast<double>(s.range(0, 4)), s.chance(2, 3)));
		e_traverse_type tt = ett_cycle;
		std::string tl = "tree";
		if(s.chance(3, 4))
		{
			static const std::vector<std::string> tts{"cycle", "nested_tree", "cycle", "nested_tree", "Cycle", "tree", "nested", ""};
			std::string v = s.pick(tts);
			p["traverse_type"] = v;
			if(v == "nested_tree") { tt = ett_nested_tree; }
			else if(v != "cycle") { valid = false; }
		}
		if(s.chance(3, 4))
		{
			static const std::vector<std::string> tls{"tree", "heap", "heap_stackless", "heap_stackless", "heap", "Tree", "heap stackless", "stackless", "cycle", ""};
			tl = s.pick(tls);
			p["tree_layout"] = tl;
			if(tl != "tree" && tl != "heap" && tl != "heap_stackless") { valid = false; }
		}
		if(valid)
		{
			c.label("simple_bh " + tl);
			if(tl == "tree") { want.reset(new nbody_engine_simple_bh_tree(ratio, tt, rate)); }
			else if(tl == "heap") { want.reset(new nbody_engine_simple_bh_heap(ratio, tt, rate)); }
			else { want.reset(new nbody_engine_simple_bh_heap_stackless(ratio, tt, rate)); }
		}
	}
	else if(type == "block") { want.reset(new nbody_engine_block); }
	else if(type == "openmp") { want.reset(new nbody_engine_openmp); }
	else { want.reset(new nbody_engine_simple); }
	if(s.chance(1, 12))
	{
		static const std::vector<std::string> bad{"", "Simple", "bh", "simple_", "cpu", "ah ", "block2", "euler", "openmp_bh", "simple_bh_tree"};
		if(s.chance(1, 4)) { p.erase("engine"); }
		else { p["engine"] = s.pick(bad); }
		valid = false;
	}
	(void)exact;
	QVariantMap pm = via_command_line(s, p, c);
	std::unique_ptr<nbody_engine> got(nbody_create_engine(pm));
	if(!valid)
	{
		c.label("engine refused");
		PBT_CHECK(got == nullptr, "an engine was created from unusable parameters");
		return;
	}
	PBT_CHECK(got != nullptr, "no engine was created");
	c.label("engine " + type);
	PBT_CHECK(std::string(got->type_name()) == want->type_name(), "an engine of the wrong kind was created: " << got->type_name());
	size_t n = s.size(2, 40);
	bodies b = gen_bodies(s, c, n, 10, false);
	nbody_data d1, d2;
	b.fill(d1);
	b.fill(d2);
	PBT_CHECK(got->init(&d1) && want->init(&d2), "engine init failed");
	size_t evals = static_cast<size_t>(s.range(1, 4));
	size_t sz = got->problem_size();
	std::vector<double> y = b.y();
	nbody_engine::memory* f1 = got->create_buffer(sizeof(double) * sz);
	nbody_engine::memory* f2 = want->create_buffer(sizeof(double) * sz);
	for(size_t k = 0; k != evals; ++k)
	{
		if(k)
		{
			for(size_t i = 0; i != n; ++i) { if(s.chance(1, 2)) { y[s.draw(3 * n - 1)] += s.number(5); } }
			d1.set_step(k);
			d2.set_step(k);
			got->set_step(k);
			want->set_step(k);
		}
		got->write_buffer(got->get_y(), y.data());
		want->write_buffer(want->get_y(), y.data());
		got->fcompute(0, got->get_y(), f1);
		want->fcompute(0, want->get_y(), f2);
		vec a = read_y(got.get(), f1, sz), r = read_y(want.get(), f2, sz);
		bool same = same_bits(a, r);
		got->fill_buffer(f1, 0);
		want->fill_buffer(f2, 0);
		PBT_CHECK(same, "evaluation " << k << ": the engine created from the parameters behaves differently from one built with the same settings");
	}
	got->free_buffer(f1);
	want->free_buffer(f2);
	c.nontrivial();
}

// ------------------------------------------------------------------ solvers
struct rk_set
{
	double			thr;
	unsigned		rec, refine, sub;
	bool			corr;
};

template<class T> static nbody_solver* mk(const rk_set& r)
{
	T* t = new T();
	t->set_error_threshold(r.thr);
	t->set_max_recursion(r.rec);
	t->set_refine_steps_count(r.refine);
	t->set_substep_subdivisions(r.sub);
	t->set_correction(r.corr);
	return t;
}

static nbody_solver* build_direct(const std::string& type, const rk_set& r, double bs_thr, unsigned bs_level)
{
	if(type == "bs") { return new nbody_solver_bulirsch_stoer(bs_level, bs_thr); }
	if(type == "euler") { return new nbody_solver_euler; }
	if(type == "midpoint") { return new nbody_solver_midpoint; }
	if(type == "midpoint-st") { return new nbody_solver_midpoint_stetter; }
	if(type == "rk4") { return new nbody_solver_rk4; }
	if(type == "rkck") { return mk<nbody_solver_rkck>(r); }
	if(type == "rkdp") { return mk<nbody_solver_rkdp>(r); }
	if(type == "rkdverk") { return mk<nbody_solver_rkdverk>(r); }
	if(type == "rkf") { return mk<nbody_solver_rkf>(r); }
	if(type == "rkfeagin10") { return mk<nbody_solver_rkfeagin10>(r); }
	if(type == "rkfeagin12") { return mk<nbody_solver_rkfeagin12>(r); }
	if(type == "rkfeagin14") { return mk<nbody_solver_rkfeagin14>(r); }
	if(type == "rkgl") { return mk<nbody_solver_rkgl>(r); }
	if(type == "rklc") { return mk<nbody_solver_rklc>(r); }
	if(type == "trapeze")
	{
		nbody_solver_trapeze* t = new nbody_solver_trapeze;
		t->set_refine_steps_count(r.refine);
		return t;
	}
	return nullptr;
}

static const std::vector<std::string>& solver_names()
{
	static const std::vector<std::string> v{"adams", "bs", "euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf",
		"rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc", "trapeze", "adams"};
	return v;
}

// counts the buffers, records clamping
class spy_engine : public ode_engine
{
public:
	long	live = 0;
	std::vector<double> clamped;
	decltype(std::declval<nbody_engine_simple&>().create_buffer(0)) create_buffer(size_t sz) override
	{
		auto m = ode_engine::create_buffer(sz);
		live += m != nullptr;
		return m;
	}
	void free_buffer(memory* m) override
	{
		live -= m != nullptr;
		ode_engine::free_buffer(m);
	}
	void clamp(memory* y, nbcoord_t b) override
	{
		clamped.push_back(b);
		ode_engine::clamp(y, b);
	}
	~spy_engine() {}
};

struct problem
{
	double om[6], amp, wid, cen;
	void operator()(double t, const double* y, double* f) const
	{
		double bump = amp * std::exp(-(t - cen) * (t - cen) / (wid * wid));
		for(size_t i = 0; i != 6; ++i) { f[i] = om[i] * y[(i + 1) % 6] - 0.3 * y[i] * std::fabs(y[i]) + bump * std::cos(i + t); }
	}
};

static problem gen_problem(pbt::source& s)
{
	problem p;
	for(auto& v : p.om) { v = s.number(2); }
	p.amp = s.positive(1e-2, 100);
	p.wid = s.positive(1e-3, 1);
	p.cen = s.unit() * 0.5;
	return p;
}

static void solvers(pbt::source& s, pbt::ctx& c)
{
	pmap p;
	std::string type = solver_names()[s.strat(solver_names().size())];
	p["solver"] = type;
	rk_set r;
	bool give_thr = s.chance(3, 4);
	double thr = s.positive(1e-9, 1e-1);
	r.thr = opt(s, p, "error_threshold", 1e-4, thr, give_thr);
	double bs_thr = give_thr ? thr : 1e-11;
	r.rec = static_cast<unsigned>(opt(s, p, "max_recursion", 8, static_cast<double>(s.range(0, 3)), s.chance(3, 4)));
	r.refine = static_cast<unsigned>(opt(s, p, "refine_steps_count", 1, static_cast<double>(s.range(1, 5)), s.chance(2, 3)));
	r.sub = static_cast<unsigned>(opt(s, p, "substep_subdivisions", 8, static_cast<double>(s.range(2, 5)), s.chance(2, 3)));
	r.corr = opt_bool(s, p, "correction");
	unsigned bs_level = static_cast<unsigned>(opt(s, p, "max_level", 8, static_cast<double>(s.chance(1, 6) ? s.range(1, 2) : s.range(3, 9)), s.chance(2, 3)));
	double dt = s.positive(1e-3, 0.3);
	double min_step = opt(s, p, "min_step", 1e-9, s.chance(1, 2) ? dt * s.positive(1e-3, 2) : s.positive(1e-12, 1e-3), s.chance(2, 3));
	double max_step = opt(s, p, "max_step", 1e-2, s.positive(1e-4, 1), s.chance(2, 3));
	bool clamp = opt_bool(s, p, "clamp");
	bool valid = true;
	std::unique_ptr<nbody_solver> want;
	if(type == "adams")
	{
		unsigned rank = 1;
		std::string starter = "euler";
		if(s.chance(3, 4))
		{
			static const std::vector<std::string> ranks{"1", "2", "3", "4", "5", "5", "4", "3", "0", "6", "-1", "100", "five", ""};
			std::string v = s.pick(ranks);
			p["rank"] = v;
			valid = v.size() == 1 && v[0] >= '1' && v[0] <= '5';
			rank = valid ? static_cast<unsigned>(v[0] - '0') : 1;
		}
		if(s.chance(3, 4))
		{
			static const std::vector<std::string> bad{"", "Euler", "rk5", "simple"};
			if(s.chance(1, 8)) { starter = s.pick(bad); valid = false; }
			else if(s.chance(1, 10)) { starter = "adams"; }	// its own starter is the default one then
			else { starter = solver_names()[static_cast<size_t>(s.range(1, 15))]; }
			p["starter_solver"] = starter;
		}
		if(valid)
		{
			nbody_solver* st = starter == "adams" ? new nbody_solver_adams(new nbody_solver_euler(), rank, r.corr) : build_direct(starter, r, bs_thr, bs_level);
			st->set_time_step(min_step, max_step);
			want.reset(new nbody_solver_adams(st, rank, r.corr));
			c.label("starter " + starter);
		}
	}
	else { want.reset(build_direct(type, r, bs_thr, bs_level)); }
	if(s.chance(1, 15))
	{
		static const std::vector<std::string> bad{"", "Euler", "rk", "rk45", "rkfeagin", "simple", "midpoint_st", "adams5", "stormer"};
		if(s.chance(1, 4)) { p.erase("solver"); }
		else { p["solver"] = s.pick(bad); }
		valid = false;
	}
	QVariantMap pm = via_command_line(s, p, c);
	std::unique_ptr<nbody_solver> got(nbody_create_solver(pm));
	if(!valid)
	{
		c.label("solver refused");
		PBT_CHECK(got == nullptr, "a solver was created from unusable parameters");
		return;
	}
	c.label("solver " + type);
	PBT_CHECK(got != nullptr, "no solver was created");
	want->set_time_step(min_step, max_step);
	PBT_CHECK(std::string(got->type_name()) == want->type_name(), "a solver of the wrong kind was created: " << got->type_name());
	PBT_CHECK(got->get_min_step() == min_step && got->get_max_step() == max_step, "the time steps are " << got->get_min_step() << ", " << got->get_max_step() << " instead of " << min_step << ", " << max_step);
	problem pr = gen_problem(s);
	spy_engine e1, e2;
	nbody_data d1, d2;
	dummy_bodies(d1, 1);
	dummy_bodies(d2, 1);
	size_t evaluations = 0;
	auto counted = [&](double t, const double* y, double* f)
	{
		if(++evaluations > 40000) { throw pbt::discard(); }	// refinement got too deep to follow
		pr(t, y, f);
	};
	e1.rhs = counted;
	e2.rhs = counted;
	PBT_CHECK(e1.init(&d1) && e2.init(&d2), "engine init failed");
	vec y;
	for(size_t i = 0; i != 6; ++i) { y.push_back(s.number(2)); }
	long base1 = e1.live;
	bool judged = true;
	{
		std::unique_ptr<nbody_solver> g(std::move(got)), w(std::move(want));
		if(s.chance(1, 8))
		{
			c.label("destroyed unused");
			if(type != "adams") { w.reset(); }
			return;
		}
		g->set_engine(&e1);
		w->set_engine(&e2);
		e1.set_state(y);
		e2.set_state(y);
		size_t steps = static_cast<size_t>(s.range(0, 8));
		for(size_t k = 0; k != steps; ++k)
		{
			size_t before = e1.get_compute_count();
			g->advise(dt);
			w->advise(dt);
			(void)before;
			vec a = e1.state(), b = e2.state();
			for(double v : b) { if(!std::isfinite(v)) { judged = false; } }
			if(!judged) { break; }
			PBT_CHECK(same_bits(a, b), "step " << k << ": the solver created from the parameters behaves differently from one built with the same settings");
			PBT_CHECK(e1.get_compute_count() == e2.get_compute_count(), "step " << k << ": the solver created from the parameters evaluated the forces " << e1.get_compute_count() << " times, one built with the same settings " << e2.get_compute_count() << " times");
			PBT_CHECK(e1.get_time() == e2.get_time(), "times differ");
			if(s.chance(1, 8)) { g->reset(); w->reset(); }
		}
		if(steps >= 2 && judged) { c.nontrivial(); }
		if(s.chance(1, 2)) { g->print_info(); }
		// clamping takes place in a run, with the box of the data, exactly when asked for
		if(judged && s.chance(1, 2))
		{
			d1.set_box_size(static_cast<double>(s.range(1, 20)));
			e1.clamped.clear();
			g->set_time_step(min_step, dt);
			double t0 = e1.get_time();
			d1.set_time(t0);
			g->run(&d1, nullptr, t0 + 3 * dt, 0, 0);
			PBT_CHECK(e1.clamped.empty() == !clamp, "clamp=" << (clamp ? "true" : "false") << " but the state was clamped " << e1.clamped.size() << " times in the run");
			for(double v : e1.clamped) { PBT_CHECK(v == d1.get_box_size(), "clamped to " << v << " instead of the box " << d1.get_box_size()); }
		}
	}
	PBT_CHECK(e1.live == base1, "the solver left " << e1.live - base1 << " buffers of the engine behind");
}

// ------------------------------------------------------------------ life time
static void lifetime(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<std::string> en{"ah", "block", "openmp", "simple", "simple_bh"};
	pmap ep{{"engine", s.pick(en)}, {"tree_layout", s.pick(std::vector<std::string>{"tree", "heap", "heap_stackless"})}, {"traverse_type", s.pick(std::vector<std::string>{"cycle", "nested_tree"})}, {"full_recompute_rate", "2"}, {"tree_build_rate", "2"}};
	std::string type = solver_names()[s.strat(solver_names().size())];
	pmap sp{{"solver", type}, {"rank", std::to_string(s.range(1, 5))}, {"starter_solver", solver_names()[static_cast<size_t>(s.range(1, 15))]}, {"correction", s.chance(1, 2) ? "1" : "0"}, {"max_recursion", "1"}, {"max_level", std::to_string(s.range(1, 5))}};
	uint64_t stage = s.draw(6);
	size_t n = s.size(1, 12);
	c.text << "engine " << ep["engine"] << " " << ep["tree_layout"] << " " << ep["traverse_type"] << " solver " << type << " stage " << stage << " n " << n;
	c.label("stage " + std::to_string(stage));
	nbody_data d;
	bodies b = gen_bodies(s, c, n, 10, true);
	b.fill(d);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(ep)));
	std::unique_ptr<nbody_solver> so(nbody_create_solver(params(sp))), other;
	PBT_CHECK(e && so, "not created");
	if(stage >= 1) { e->print_info(); so->print_info(); }
	if(stage >= 2) { so->set_engine(e.get()); }
	if(stage >= 3) { PBT_CHECK(e->init(&d), "init failed"); }
	if(stage >= 4)
	{
		size_t steps = static_cast<size_t>(s.range(1, 7));
		for(size_t k = 0; k != steps; ++k) { so->advise(1e-3); }
		c.nontrivial();
	}
	if(stage >= 5)
	{
		so->reset();
		if(s.chance(1, 2)) { so->advise(1e-3); }
	}
	if(stage >= 6)
	{
		// a second solver takes over the engine
		other.reset(nbody_create_solver(params({{"solver", s.pick(solver_names())}, {"rank", "3"}, {"starter_solver", "rk4"}, {"max_recursion", "1"}})));
		other->set_engine(e.get());
		other->advise(1e-3);
		if(s.chance(1, 2)) { so.reset(); }
		other->advise(1e-3);
	}
	if(stage < 2 && s.chance(1, 2)) { e.reset(); }
	other.reset();
	so.reset();
	e.reset();
}

// ------------------------------------------------------------------ OpenCL engines
static void opencl(pbt::source& s, pbt::ctx& c)
{
	bool bh = s.strat(2) == 1;
	pmap p{{"engine", bh ? "opencl_bh" : "opencl"}};
	bool valid = true;
	size_t devices = 1, block = 64;
	if(s.chance(3, 4))
	{
		static const std::vector<std::string> dev{"0:0", "0:0,0", "0:0;0:0", "0:0,0;0:0,0", "0:0,0,0", "0:0,0;0:0", "", "0", "0:", ":0", "0:1", "0:0,9", "1:0", "a:0", "0:b", "0:0:0", "0:0;", ";0:0", "-1:0", "0:-1", "0:0;5:0", "0;0"};
		static const size_t cnt[] = {1, 2, 2, 4};
		size_t i = s.chance(1, 2) ? s.draw(3) : s.draw(dev.size() - 1);
		p["device"] = dev[i];
		valid = i < 4;
		if(valid) { devices = cnt[i]; }
	}
	if(s.chance(1, 2))
	{
		block = static_cast<size_t>(1) << (2 * s.draw(3));
		p["block_size"] = std::to_string(block);
	}
	if(s.chance(1, 3)) { p["oclprof"] = s.pick(std::vector<std::string>{"0", "1"}); }
	double ratio = 10;
	if(bh)
	{
		ratio = opt(s, p, "distance_to_node_radius_ratio", 10, s.positive(1, 50), s.chance(1, 2));
		if(s.chance(1, 2))
		{
			std::string v = s.pick(std::vector<std::string>{"heap", "heap_stackless", "heap", "tree", "Heap", ""});
			p["tree_layout"] = v;
			valid = valid && (v == "heap" || v == "heap_stackless");
		}
		if(s.chance(1, 2))
		{
			std::string v = s.pick(std::vector<std::string>{"cycle", "nested_tree", "cycle", "nested", ""});
			p["traverse_type"] = v;
			valid = valid && (v == "cycle" || v == "nested_tree");
		}
	}
	QVariantMap pm = via_command_line(s, p, c);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(pm));
	PBT_CHECK((e != nullptr) == valid, (valid ? "no engine was created" : "an engine was created from unusable parameters"));
	c.label(valid ? "engine created" : "engine refused");
	if(!valid) { return; }
	PBT_CHECK(bh == (dynamic_cast<nbody_engine_opencl_bh*>(e.get()) != nullptr), "engine of the wrong kind");
	c.nontrivial();
	if(s.chance(1, 2)) { e->print_info(); }
	if(s.chance(1, 3)) { return; }
	nbody_data d;
	bodies b = gen_bodies(s, c, block * devices, 10, false);
	b.fill(d);
	PBT_CHECK(e->init(&d), "init failed");
	if(block <= 16 && s.chance(1, 2))
	{
		// agrees with the exact force within the opening-criterion bound (C01, C02 judge this in depth)
		size_t n = b.n(), sz = e->problem_size();
		nbody_engine::memory* f = e->create_buffer(sizeof(double) * sz);
		e->fcompute(0, e->get_y(), f);
		vec got = read_y(e.get(), f, sz);
		e->free_buffer(f);
		accel a = reference_accel(b.y(), b.m);
		double k = bh ? 1 / ratio : 0;
		for(size_t i = 0; i != n; ++i)
		{
			ld err = std::max(fabsl(got[3 * n + i] - a.ax[i]), std::max(fabsl(got[4 * n + i] - a.ay[i]), fabsl(got[5 * n + i] - a.az[i])));
			PBT_CHECK(err <= (8 * k + 1e-9) * a.s2[i] * 4, "acceleration of body " << i << " is off by " << static_cast<double>(err));
			PBT_CHECK(got[i] == b.v[i].x && got[n + i] == b.v[i].y && got[2 * n + i] == b.v[i].z, "velocity of body " << i);
		}
	}
}

int main(int argc, char** argv)
{
	quiet_qt();
	if(ocl()) { return pbt::runner({{"opencl", opencl, 260, 4000, 0, 120, false}}).main(argc, argv); }
	return pbt::runner({{"args", args, 60000, 2000000, 0, 20, false}, {"engines", engines, 12000, 300000, 0, 20, false},
		{"solvers", solvers, 25000, 600000, 0, 40, false}, {"lifetime", lifetime, 8000, 200000, 0, 40, false}}).main(argc, argv);
}
