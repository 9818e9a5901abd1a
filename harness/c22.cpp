// C22: a reset solver behaves like a new one; solvers do not influence each other
#include "ode_engine.h"

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

static pmap gen_solver(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<std::string> names{"adams", "bs", "euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf",
		"rkfeagin10", "rkfeagin12", "rkfeagin14", "trapeze"};
	pmap p;
	uint64_t k = s.strat(names.size() * 2);
	p["solver"] = k < names.size() ? names[k] : "adams";
	if(p["solver"] == "adams")
	{
		p["rank"] = std::to_string(s.range(1, 5));
		p["starter_solver"] = names[static_cast<size_t>(s.range(1, static_cast<int64_t>(names.size()) - 1))];
		c.label("starter " + p["starter_solver"]);
	}
	if(s.chance(1, 2)) { p["correction"] = "1"; }
	p["max_recursion"] = std::to_string(s.range(0, 2));
	p["substep_subdivisions"] = std::to_string(s.range(2, 4));
	p["error_threshold"] = num(s.positive(1e-10, 1e-2));
	p["max_level"] = std::to_string(s.range(3, 8));
	p["refine_steps_count"] = std::to_string(s.range(0, 3));
	c.label("solver " + p["solver"]);
	return p;
}

struct rhs_t
{
	double om[6], k;
	size_t n;
	size_t* count;
	void operator()(double t, const double* y, double* f) const
	{
		if(++*count > 200000) { throw pbt::discard(); }
		for(size_t i = 0; i != n; ++i) { f[i] = om[i % 6] * y[(i + 1) % n] + k * std::cos(3 * t + i) - 0.1 * y[i] * std::fabs(y[i]); }
	}
};

static rhs_t gen_rhs(pbt::source& s, size_t n, size_t* count)
{
	rhs_t r;
	for(auto& v : r.om) { v = s.number(2); }
	r.k = s.number(3);
	r.n = n;
	r.count = count;
	return r;
}

template<class E> static void gen_state(pbt::source& s, E& e, size_t n)
{
	vec y;
	for(size_t i = 0; i != n; ++i) { y.push_back(s.number(3)); }
	e.set_state(y);
	e.set_time(s.chance(1, 2) ? 0 : s.number(10));
	e.set_step(s.draw(5));
}

static void step_list(pbt::source& s, std::vector<double>& v, size_t n)
{
	double dt = s.positive(1e-4, 0.3);
	bool vary = s.chance(1, 2);
	for(size_t i = 0; i != n; ++i)
	{
		v.push_back(dt);
		if(vary) { dt = s.positive(1e-4, 0.3); }
	}
}

template<class E> static void reset_case(pbt::source& s, pbt::ctx& c)
{
	pmap p = gen_solver(s, c);
	size_t bodies_n = s.chance(1, 200) ? 20 + s.draw(150) : s.size(1, 4), n = 6 * bodies_n, count = 0;
	rhs_t rhs = gen_rhs(s, n, &count);
	E e1, e2;
	nbody_data d1, d2;
	dummy_bodies(d1, bodies_n);
	dummy_bodies(d2, bodies_n);
	e1.rhs = rhs;
	e2.rhs = rhs;
	PBT_CHECK(e1.init(&d1) && e2.init(&d2), "init failed");
	std::unique_ptr<nbody_solver> used(nbody_create_solver(params(p)));
	PBT_CHECK(used != nullptr, "no solver");
	used->set_engine(&e1);
	gen_state(s, e1, n);
	size_t lives = static_cast<size_t>(s.range(1, 3)), pre = 0, post = 0;
	for(auto& k : p) { c.text << k.first << "=" << k.second << " "; }
	for(size_t l = 0; l != lives; ++l)
	{
		std::vector<double> before;
		step_list(s, before, s.chance(1, 100) ? 50 + s.draw(150) : static_cast<size_t>(s.range(0, 12)));
		for(double dt : before) { used->advise(dt); }
		pre += before.size();
		used->reset();
		if(s.chance(1, 8)) { used->reset(); }
		std::unique_ptr<nbody_solver> fresh(nbody_create_solver(params(p)));
		fresh->set_engine(&e2);
		if(s.chance(1, 2)) { gen_state(s, e1, n); }
		vec y = e1.state();
		e2.set_state(y);
		e2.set_time(e1.get_time());
		e2.set_step(e1.get_step());
		std::vector<double> after;
		step_list(s, after, static_cast<size_t>(s.range(1, 12)));
		post += after.size();
		c.text << "| " << before.size() << " steps, reset, " << after.size() << " steps of " << after[0] << ".. ";
		for(size_t k = 0; k != after.size(); ++k)
		{
			size_t c1 = e1.get_compute_count(), c2 = e2.get_compute_count();
			used->advise(after[k]);
			fresh->advise(after[k]);
			vec a = e1.state(), b = e2.state();
			for(double v : b) { if(!std::isfinite(v)) { throw pbt::discard(); } }
			PBT_CHECK(same_bits(a, b), "step " << k << " after the reset differs from that of a new solver");
			PBT_CHECK(e1.get_time() == e2.get_time(), "time after the step differs: " << e1.get_time() << " and " << e2.get_time());
			PBT_CHECK(e1.get_compute_count() - c1 == e2.get_compute_count() - c2, "step " << k << " after the reset took another number of evaluations than that of a new solver");
		}
	}
	if(pre >= 2 && post >= 2) { c.nontrivial(); }
}

static void reset(pbt::source& s, pbt::ctx& c)
{
	if(s.draw(2) == 0) { reset_case<ode_engine_t<nbody_engine_openmp>>(s, c); }
	else { reset_case<ode_engine>(s, c); }
}

// alternating use on different engines against use one after the other
static void interleaved(pbt::source& s, pbt::ctx& c)
{
	pmap p[2];
	p[0] = gen_solver(s, c);
	p[1] = s.chance(1, 2) ? p[0] : gen_solver(s, c);
	size_t nb[2], count = 0;
	rhs_t rhs[2];
	std::vector<double> dts[2];
	for(size_t k = 0; k != 2; ++k)
	{
		nb[k] = s.size(1, 4);
		rhs[k] = gen_rhs(s, 6 * nb[k], &count);
		step_list(s, dts[k], static_cast<size_t>(s.range(1, 10)));
	}
	vec y0[2];
	for(size_t k = 0; k != 2; ++k) { for(size_t i = 0; i != 6 * nb[k]; ++i) { y0[k].push_back(s.number(3)); } }
	std::vector<vec> ref[2];
	// alone
	for(size_t k = 0; k != 2; ++k)
	{
		ode_engine e;
		nbody_data d;
		dummy_bodies(d, nb[k]);
		e.rhs = rhs[k];
		PBT_CHECK(e.init(&d), "init failed");
		std::unique_ptr<nbody_solver> so(nbody_create_solver(params(p[k])));
		so->set_engine(&e);
		e.set_state(y0[k]);
		for(double dt : dts[k]) { so->advise(dt); ref[k].push_back(e.state()); }
	}
	// alternating
	ode_engine e[2];
	nbody_data d[2];
	std::unique_ptr<nbody_solver> so[2];
	for(size_t k = 0; k != 2; ++k)
	{
		dummy_bodies(d[k], nb[k]);
		e[k].rhs = rhs[k];
		PBT_CHECK(e[k].init(&d[k]), "init failed");
		so[k].reset(nbody_create_solver(params(p[k])));
		so[k]->set_engine(&e[k]);
		e[k].set_state(y0[k]);
	}
	size_t done[2] = {0, 0};
	c.text << p[0]["solver"] << " and " << p[1]["solver"] << ", " << dts[0].size() << " and " << dts[1].size() << " steps";
	while(done[0] < dts[0].size() || done[1] < dts[1].size())
	{
		size_t k = s.draw(1);
		if(done[k] >= dts[k].size()) { k = 1 - k; }
		so[k]->advise(dts[k][done[k]]);
		vec a = e[k].state();
		for(double v : a) { if(!std::isfinite(v)) { throw pbt::discard(); } }
		PBT_CHECK(same_bits(a, ref[k][done[k]]), "step " << done[k] << " of solver " << k << " differs when another solver works on another engine");
		++done[k];
	}
	if(dts[0].size() >= 2 && dts[1].size() >= 2) { c.nontrivial(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"reset", reset, 40000, 1000000, 0, 30, false}, {"interleaved", interleaved, 20000, 500000, 0, 30, false}}).main(argc, argv);
}
