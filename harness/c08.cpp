// C08: order of convergence of every solver on generated initial value problems with known solutions
#include "ode_engine.h"
#include "nbody_butcher_table.h"
#include "nbody_solver_rk_butcher.h"

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

struct method
{
	const char*	name;
	int			order;
	pmap		p;
};

static std::vector<method> methods()
{
	std::vector<method> m;
	for(int r = 1; r <= 5; ++r)
	{
		m.push_back({"adams", r, {{"solver", "adams"}, {"rank", std::to_string(r)}, {"starter_solver", "rk4"}}});
		m.push_back({"adams+corr", r, {{"solver", "adams"}, {"rank", std::to_string(r)}, {"starter_solver", "rkf"}, {"correction", "true"}, {"max_recursion", "0"}}});
	}
	m.push_back({"bs3", 6, {{"solver", "bs"}, {"max_level", "3"}, {"error_threshold", "0"}}});
	m.push_back({"bs4", 8, {{"solver", "bs"}, {"max_level", "4"}, {"error_threshold", "0"}}});
	m.push_back({"bs5", 10, {{"solver", "bs"}, {"max_level", "5"}, {"error_threshold", "0"}}});
	m.push_back({"euler", 1, {{"solver", "euler"}}});
	m.push_back({"midpoint", 2, {{"solver", "midpoint"}}});
	m.push_back({"midpoint-st", 2, {{"solver", "midpoint-st"}}});
	m.push_back({"rk4", 4, {{"solver", "rk4"}}});
	// rkck, rkdp, rkgl and rklc: the order of the weights they propagate with (known findings: README promises 5, 5, 6, 4)
	static const struct { const char* n; int p; } rk[] = {{"rkck", 4}, {"rkdp", 4}, {"rkdverk", 5}, {"rkf", 7}, {"rkfeagin10", 10}, {"rkfeagin12", 12}, {"rkfeagin14", 14}};
	for(auto& k : rk)
	{
		m.push_back({k.n, k.p, {{"solver", k.n}, {"max_recursion", "0"}}});
		m.push_back({k.n, k.p, {{"solver", k.n}, {"max_recursion", "0"}, {"correction", "true"}}});
	}
	m.push_back({"rkgl", 2, {{"solver", "rkgl"}, {"max_recursion", "0"}, {"refine_steps_count", "30"}}});
	m.push_back({"rklc", 2, {{"solver", "rklc"}, {"max_recursion", "0"}, {"refine_steps_count", "30"}}});
	m.push_back({"trapeze", 2, {{"solver", "trapeze"}, {"refine_steps_count", "1"}}});
	m.push_back({"trapeze", 2, {{"solver", "trapeze"}, {"refine_steps_count", "8"}}});
	return m;
}

static vec integrate(const pmap& sp, const ode_engine::rhs_t& rhs, const vec& y0, double t0, double T, size_t steps)
{
	nbody_data d;
	dummy_bodies(d, 1);
	ode_engine e;
	e.init(&d);
	e.rhs = rhs;
	e.set_state(y0);
	e.set_time(t0);
	std::unique_ptr<nbody_solver> s(nbody_create_solver(params(sp)));
	PBT_CHECK(s != nullptr, "solver not created");
	s->set_engine(&e);
	double dt = T / steps;
	for(size_t k = 0; k != steps; ++k) { s->advise(dt); }
	PBT_CHECK(std::fabs(e.get_time() - (t0 + T)) < 1e-9 * (1 + std::fabs(t0) + T), "time after " << steps << " steps of " << dt << " from " << t0 << " is " << e.get_time());
	return e.state();
}

static void p_order(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<method> ms = methods();
	const method& m = ms[s.strat(ms.size())];
	// time runs through w(t) = t + amp*sin(fr*t+ph): the right-hand side depends on time
	double amp = s.chance(1, 5) ? 0 : 0.2 + 0.6 * s.unit(), fr = 0.6 + s.unit(), ph = 6 * s.unit();
	double t0 = s.chance(1, 3) ? 0 : s.number(3);
	double om = 0.8 + 1.2 * s.unit(), ph2 = 6 * s.unit(), ex = 0.4 + 0.4 * s.unit();
	double lam = (s.chance(1, 2) ? 1 : -1) * (0.4 + 0.8 * s.unit());
	double q0 = 0.3 + s.unit(), lg = 0.5 + s.unit();
	auto w = [ = ](double t) { return t + amp / fr * std::sin(fr * t + ph); };
	auto dw = [ = ](double t) { return 1 + amp * std::cos(fr * t + ph); };
	// exact solution in terms of w
	double w0 = w(t0);
	auto exact = [ = ](double t)
	{
		double u = w(t) - w0;
		vec y(6);
		y[0] = std::exp(ex * std::sin(om * u + ph2));			// coupled nonlinear pair
		y[1] = std::exp(ex * std::cos(om * u + ph2));
		y[2] = std::exp(lam * u);								// linear
		y[3] = 1 / (1 / q0 + lg * u * (1 + 0.25 * u));			// y' = -lg (1+u/2) y^2, explicit in time through u
		y[4] = 1 / (1 + std::exp(-lg * u) * (1 / 0.3 - 1));		// logistic
		y[5] = std::sin(om * u) + 0.5 * u;						// driven by time only
		return y;
	};
	ode_engine::rhs_t rhs = [ = ](double t, const double * y, double * f)
	{
		double u = w(t) - w0, g = dw(t);
		f[0] = g * om * y[0] * std::log(y[1]);
		f[1] = -g * om * y[1] * std::log(y[0]);
		f[2] = g * lam * y[2];
		f[3] = -g * lg * (1 + 0.5 * u) * y[3] * y[3];
		f[4] = g * lg * y[4] * (1 - y[4]);
		f[5] = g * (om * std::cos(om * u) + 0.5);
	};
	double T = 2 + s.unit();
	// steps where the method is in its asymptotic range but above the rounding floor
	size_t n0 = m.order <= 2 ? 64 : m.order <= 5 ? 48 : m.order <= 8 ? 12 : m.order <= 10 ? 6 : 4;
	if(m.p.at("solver") == "adams") { n0 = 128; }
	const double floor_err = 5e-12;
	std::vector<double> err;
	vec want = exact(t0 + T);
	size_t worst = 0;
	for(size_t k = 0; k != 5; ++k)
	{
		vec y = integrate(m.p, rhs, exact(t0), t0, T, n0 << k);
		double e = 0;
		for(size_t i = 0; i != 6; ++i) { double q = std::fabs(y[i] - want[i]) / std::max(1.0, std::fabs(want[i])); if(!(q <= e)) { e = q; worst = i; } }
		err.push_back(e);
	}
	double best = -100;
	std::ostringstream es;
	for(double e : err) { es << e << " "; }
	for(size_t k = 2; k + 1 < err.size() + 0; ++k) { best = std::max(best, std::log2(err[k] / err[k + 1])); }
	bool floor_hit = *std::min_element(err.begin(), err.end()) <= floor_err;
	PBT_CHECK(floor_hit || best >= m.order - 0.5, m.name << " (order " << m.order << "): global errors for " << n0 << "*2^k steps over " << T << ": " << es.str()
			  << "- observed order " << best << ", component " << worst << ", time modulation " << amp);
	c.label(std::string(m.name) + " order " + std::to_string(m.order));
	if(amp > 0) { c.label("time dependent"); }
	c.nontrivial();
	if(getenv("C08_SHOW")) { double b0 = std::log2(err[0] / err[1]), b1 = std::log2(err[1] / err[2]); fprintf(stderr, "SHOW %s %d: %s orders %g %g best %g\n", m.name, m.order, es.str().c_str(), b0, b1, best); }
	if(c.verbose) { c.text << m.name << " t0=" << t0 << " T=" << T << " errors " << es.str() << (floor_hit ? " (floor)" : "") << " order " << best; }
}

// quadrature: right-hand side a polynomial in t of degree below the order
static void p_poly(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<method> ms = methods();
	const method& m = ms[s.strat(ms.size())];
	double t0 = s.chance(1, 3) ? 0 : s.number(1);
	size_t steps = 1 + s.draw(6);
	double h = s.chance(1, 3) ? 0.25 : s.positive(0.02, 0.4);
	double T = h * steps;
	pmap sp = m.p;
	int deg = m.order - 1;
	if(sp["solver"] == "adams")
	{
		steps += 6;
		T = h * steps;
		sp["starter_solver"] = "rkfeagin10";	// exact for all degrees below five
	}
	vec co(6), dg(6);
	for(size_t i = 0; i != 6; ++i)
	{
		co[i] = s.number(2);
		dg[i] = i == 0 ? deg : static_cast<double>(s.draw(deg));
	}
	if(co[0] == 0) { co[0] = 1; }
	auto rhs = [ = ](double t, const double*, double * f) { for(size_t i = 0; i != 6; ++i) { f[i] = co[i] * std::pow(t - t0, dg[i]); } };
	vec y0(6);
	for(auto& v : y0) { v = s.number(1); }
	vec y = integrate(sp, rhs, y0, t0, T, steps);
	for(size_t i = 0; i != 6; ++i)
	{
		double want = y0[i] + co[i] * std::pow(T, dg[i] + 1) / (dg[i] + 1);
		double mag = std::fabs(y0[i]) + std::fabs(co[i]) * std::pow(std::max(T, 1.0), dg[i] + 1) * 20;
		PBT_CHECK(std::fabs(y[i] - want) <= 1e-14 * mag * (20 + steps), m.name << " (order " << m.order << ", " << steps << " steps of " << h << " from " << t0 << "): integral of " << co[i] << "*t^"
				  << dg[i] << " is " << y[i] << ", exact " << want);
	}
	static const std::map<std::string, int> promised{{"rkck", 5}, {"rkdp", 5}, {"rkgl", 6}, {"rklc", 4}};
	auto pr = promised.find(m.name);
	if(pr != promised.end())	// known findings: is the documented order reached?
	{
		int k = pr->second;
		auto mono = [ = ](double t, const double*, double * f) { for(size_t i = 0; i != 6; ++i) { f[i] = std::pow(t, k - 1); } };
		if(std::fabs(integrate(sp, mono, vec(6, 0.0), 0, 1, 1)[0] - 1.0 / k) > 1e-6) { c.label("below documented order: " + pr->first); }
	}
	c.label(m.name);
	c.nontrivial();
	if(c.verbose) { c.text << m.name << " degree " << deg << " t0=" << t0 << " steps=" << steps << " h=" << h; }
}

// circular two-body orbit with the gravitational engine
static void p_orbit(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<method> ms = methods();
	const method& m = ms[s.strat(ms.size())];
	double m1 = s.positive(0.5, 2), m2 = s.positive(0.5, 2), R = 1 + 0.5 * s.unit(), M = m1 + m2;
	double om = std::sqrt(M / (R * R * R)), a0 = 6.28 * s.unit();
	v3 drift{s.number(1), s.number(1), s.number(1)}, ctr{s.number(2), s.number(2), s.number(2)};
	auto at = [&](double t, size_t b, double * r, double * v)
	{
		double k = b == 0 ? -m2 / M : m1 / M, an = a0 + om * t;
		r[0] = ctr.x + drift.x * t + k * R * std::cos(an);
		r[1] = ctr.y + drift.y * t + k * R * std::sin(an);
		r[2] = ctr.z + drift.z * t;
		v[0] = drift.x - k * R * om * std::sin(an);
		v[1] = drift.y + k * R * om * std::cos(an);
		v[2] = drift.z;
	};
	double T = (1.5 + s.unit()) / om;
	static const char* const en[] = {"simple", "openmp", "block", "simple_bh"};
	std::string engine = en[s.draw(3)];
	size_t n0 = m.order <= 2 ? 96 : m.order <= 5 ? 48 : m.order <= 8 ? 12 : m.order <= 10 ? 8 : 4;
	if(m.p.at("solver") == "adams") { n0 = 128; }
	std::vector<double> err;
	std::ostringstream es;
	for(size_t k = 0; k != 5; ++k)
	{
		nbody_data d;
		double r[3], v[3];
		at(0, 0, r, v);
		d.add_body(nbvertex_t(r[0], r[1], r[2]), nbvertex_t(v[0], v[1], v[2]), m1, nbcolor_t(1, 1, 1, 1));
		at(0, 1, r, v);
		d.add_body(nbvertex_t(r[0], r[1], r[2]), nbvertex_t(v[0], v[1], v[2]), m2, nbcolor_t(1, 1, 1, 1));
		std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", engine}, {"distance_to_node_radius_ratio", "1e9"}})));
		e->init(&d);
		std::unique_ptr<nbody_solver> sv(nbody_create_solver(params(m.p)));
		sv->set_engine(e.get());
		size_t steps = n0 << k;
		for(size_t q = 0; q != steps; ++q) { sv->advise(T / steps); }
		vec y = read_y(e.get(), e->get_y(), 12);
		double er = 0;
		for(size_t b = 0; b != 2; ++b)
		{
			at(T, b, r, v);
			for(int q = 0; q != 3; ++q)
			{
				er = std::max(er, std::fabs(y[q * 2 + b] - r[q]));
				er = std::max(er, std::fabs(y[(3 + q) * 2 + b] - v[q]));
			}
		}
		err.push_back(er);
		es << er << " ";
	}
	double best = -100;
	for(size_t k = 2; k + 1 < err.size(); ++k) { best = std::max(best, std::log2(err[k] / err[k + 1])); }
	bool floor_hit = *std::min_element(err.begin(), err.end()) <= 1e-11;
	PBT_CHECK(floor_hit || best >= m.order - 0.5, m.name << " (order " << m.order << ") on a circular orbit, engine " << engine << ": errors for " << n0 << "*2^k steps: " << es.str()
			  << "- observed order " << best);
	c.label(m.name);
	c.nontrivial();
	if(c.verbose) { c.text << m.name << " orbit m1=" << m1 << " m2=" << m2 << " R=" << R << " errors " << es.str() << " order " << best; }
}

// sufficiently refined implicit methods satisfy their equations: closed form for a linear right-hand side
static void p_implicit(pbt::source& s, pbt::ctx& c)
{
	static const char* names[] = {"rkgl", "rklc", "trapeze"};
	std::string name = names[s.strat(3)];
	size_t refine = 30 + s.draw(30), steps = 1 + s.draw(3);
	double h = s.chance(1, 3) ? 0.125 : s.positive(0.01, 0.4), t0 = s.chance(1, 3) ? 0 : s.number(3), om = s.number(2), ph = 6 * s.unit();
	vec lam(6), g(6), y(6);
	for(size_t i = 0; i != 6; ++i)
	{
		lam[i] = (2 * s.unit() - 1) * 0.35 / h;
		g[i] = s.chance(1, 3) ? 0 : s.number(2);
		y[i] = s.number(2);
	}
	nbody_data d;
	dummy_bodies(d, 1);
	ode_engine e;
	e.init(&d);
	e.rhs = [ = ](double t, const double * v, double * f) { for(size_t i = 0; i != 6; ++i) { f[i] = lam[i] * v[i] + g[i] * std::cos(om * t + ph); } };
	e.set_state(y);
	e.set_time(t0);
	std::unique_ptr<nbody_solver> so(nbody_create_solver(params({{"solver", name}, {"refine_steps_count", std::to_string(refine)}, {"max_recursion", "0"}})));
	PBT_CHECK(so != nullptr, "solver not created");
	so->set_engine(&e);
	c.text << name << " refined " << refine << " times, " << steps << " steps of " << h;
	auto* rk = dynamic_cast<nbody_solver_rk_butcher*>(so.get());
	for(size_t k = 0; k != steps; ++k)
	{
		double t = t0 + h * static_cast<double>(k);
		vec y0 = e.state();
		so->advise(h);
		vec y1 = e.state();
		for(size_t i = 0; i != 6; ++i)
		{
			double scale = std::fabs(y0[i]) + h * std::fabs(g[i]) + 1e-300, tol = 1e-10 * scale;
			auto drive = [&](double tt) { return g[i] * std::cos(om * tt + ph); };
			if(!rk)
			{
				double want = (y0[i] * (1 + lam[i] * h / 2) + h / 2 * (drive(t) + drive(t + h))) / (1 - lam[i] * h / 2);
				PBT_CHECK(std::fabs(y1[i] - want) <= tol, "step " << k << ", component " << i << " is " << y1[i] << ", the trapezoidal rule gives " << want);
				continue;
			}
			const nbody_butcher_table* b = rk->table();
			size_t n = b->get_steps();
			// (I - h lam A) K = lam y + g(t + c h)
			std::vector<vec> m(n, vec(n + 1));
			for(size_t r = 0; r != n; ++r)
			{
				for(size_t q = 0; q != n; ++q) { m[r][q] = (r == q) - h * lam[i] * static_cast<double>(b->get_a()[r][q]); }
				m[r][n] = lam[i] * y0[i] + drive(t + static_cast<double>(b->get_c()[r]) * h);
			}
			for(size_t r = 0; r != n; ++r)
			{
				size_t p = r;
				for(size_t q = r; q != n; ++q) { if(std::fabs(m[q][r]) > std::fabs(m[p][r])) { p = q; } }
				std::swap(m[p], m[r]);
				for(size_t q = 0; q != n; ++q)
				{
					if(q == r) { continue; }
					double f = m[q][r] / m[r][r];
					for(size_t j = r; j <= n; ++j) { m[q][j] -= f * m[r][j]; }
				}
			}
			double w[2] = {y0[i], y0[i]};
			for(size_t r = 0; r != n; ++r)
			{
				double kr = m[r][n] / m[r][r];
				w[0] += h * static_cast<double>(b->get_b1()[r]) * kr;
				w[1] += h * static_cast<double>(b->get_b2()[r]) * kr;
			}
			PBT_CHECK(std::fabs(y1[i] - w[0]) <= tol || std::fabs(y1[i] - w[1]) <= tol, "step " << k << ", component " << i << " is " << y1[i] << ", the stage equations give " << w[1] << " or " << w[0]);
		}
	}
	c.label(name + " refined");
	c.nontrivial();
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"order", p_order, 9000, 200000, 0, 60, false}, {"poly", p_poly, 60000, 2000000, 0, 60, false}, {"orbit", p_orbit, 3000, 60000, 0, 60, false}, {"implicit", p_implicit, 20000, 600000, 0, 60, false}}).main(argc, argv);
}
