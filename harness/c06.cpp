// C06: compensated accumulation against quad precision
#include "ode_engine.h"
#include "summation.h"
#include <quadmath.h>

typedef __float128 f128;
typedef std::vector<double> vec;
static const double EPS = 1.1102230246251565e-16;

static f128 absq(f128 v) { return v < 0 ? -v : v; }

static std::vector<std::map<std::string, std::string>> engines()
{
	if(ocl()) { return {{{"engine", "opencl"}}}; }
	if(cuda()) { return {{{"engine", "cuda"}}, {{"engine", "cuda_bh"}}, {{"engine", "cuda_bh_tex"}}}; }
	return {{{"engine", "simple"}}, {{"engine", "openmp"}}, {{"engine", "block"}}, {{"engine", "ah"}}, {{"engine", "simple_bh"}}};
}

// accumulated series: exact sum, magnitude, and what the plain update would give
struct series
{
	f128	exact, mag;
	double	plain;
	explicit series(double a = 0) : exact(a), mag(absq(a)), plain(a) {}
	void add(double b, double c)
	{
		f128 t = static_cast<f128>(b) * c;
		exact += t;
		mag += absq(t);
		volatile double p = b * c;
		plain = plain + p;
	}
	// Kahan: |error| <= (2 eps + O(n eps^2)) sum|x|, one more eps for the rounded products
	f128 tol(double terms) const
	{
		return mag * (4 * EPS + 2 * terms * EPS * EPS) + 1e-300Q;
	}
};

static void p_direct(pbt::source& s, pbt::ctx& c)
{
	auto list = engines();
	auto ep = list[s.strat(list.size())];
	size_t n = ocl() ? 4 : s.size(1, 6);
	if(cuda()) { n = gen_cuda(s, c, ep); }
	else if(ocl()) { ep["block_size"] = "4"; if(s.chance(1, 3)) { n = 8; ep["device"] = "0:0,0"; } }
	else { omp_set_num_threads(1 + static_cast<int>(s.draw(3))); }
	nbody_data d;
	dummy_bodies(d, n);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(ep)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	const size_t size = e->problem_size();
	size_t nt = s.chance(1, 4) ? 5 + s.draw(35) : 1 + s.draw(4);
	nbody_engine::memory* a = e->create_buffer(size * sizeof(double));
	nbody_engine::memory* corr = e->create_buffer(size * sizeof(double));
	nbody_engine::memory_array b = e->create_buffers(size * sizeof(double), nt);
	e->fill_buffer(corr, 0);
	// magnitudes: the start value dominates, the increments are small
	double start = s.chance(1, 5) ? 0 : s.positive(1e-3, 1e6);
	double incr = start == 0 ? 1 : start * s.positive(1e-12, 1e-1);
	bool signs = s.chance(1, 4);
	vec a0(size);
	for(auto& x : a0) { x = start * (0.5 + s.unit()); if(signs && s.chance(1, 2)) { x = -x; } }
	e->write_buffer(a, a0.data());
	std::vector<series> w;
	for(double x : a0) { w.push_back(series(x)); }
	size_t calls = ocl() || cuda() ? 40 + s.draw(120) : (s.chance(1, 4) ? 200 + s.draw(3000) : 1 + s.draw(300));
	if(nt > 8) { calls = 1 + calls / 8; }
	if((ocl() || cuda()) && incr > 1e-2 * start) { calls /= 2; }
	vec base(size * nt);
	for(auto& x : base) { x = incr * (0.25 + s.unit()); if(signs && s.chance(1, 3)) { x = -x; } }
	uint64_t vary = s.draw(2);
	uint64_t seed = s.draw(UINT32_MAX);
	bool with_zero = s.chance(1, 4), fewer = nt > 1 && s.chance(1, 4);
	std::vector<vec> bv(nt, vec(size));
	size_t terms = 0;
	for(size_t k = 0; k != calls; ++k)
	{
		vec co(nt);
		for(size_t q = 0; q != nt; ++q)
		{
			co[q] = vary == 0 ? 1.0 : 0.1 + (pbt::mix(seed + k * 17 + q) % 1000) / 1000.0;
			if(with_zero && (k + q) % 3 == 0) { co[q] = 0; }
			if(k == 0 || vary == 2)
			{
				for(size_t i = 0; i != size; ++i)
				{
					bv[q][i] = base[q * size + i] * (vary == 2 ? 0.5 + (pbt::mix(seed + k * 977 + q * 31 + i) % 4096) / 4096.0 : 1.0);
				}
				e->write_buffer(b[q], bv[q].data());
			}
		}
		size_t csize = fewer ? nt - 1 : nt;
		e->fmaddn_corr(a, corr, b, co.data(), csize);
		for(size_t q = 0; q != csize; ++q)
		{
			if(co[q] == 0) { continue; }
			++terms;
			for(size_t i = 0; i != size; ++i) { w[i].add(bv[q][i], co[q]); }
		}
	}
	vec got = read_y(e.get(), a, size);
	bool hard = false;
	for(size_t i = 0; i != size; ++i)
	{
		f128 err = absq(static_cast<f128>(got[i]) - w[i].exact), tol = w[i].tol(terms);
		if(absq(static_cast<f128>(w[i].plain) - w[i].exact) > tol) { hard = true; }
		PBT_CHECK(err <= tol, ep["engine"] << ": " << calls << " compensated updates of " << nt << " terms, start " << a0[i] << " increments about " << incr
				  << ": element " << i << " is " << got[i] << ", exact " << static_cast<double>(w[i].exact) << ", error "
				  << static_cast<double>(err / (w[i].mag * EPS)) << " eps of the magnitude (allowed 4; plain update "
				  << static_cast<double>(absq(static_cast<f128>(w[i].plain) - w[i].exact) / (w[i].mag * EPS)) << ")");
	}
	for(size_t q = 0; q != nt; ++q) { PBT_CHECK(same_bits(bv[q], read_y(e.get(), b[q], size)), ep["engine"] << ": compensated update changed a term"); }
	// too many coefficients: rejected without effect
	vec co(nt + 1, 1.0), cb = read_y(e.get(), corr, size);
	e->fmaddn_corr(a, corr, b, co.data(), nt + 1);
	PBT_CHECK(same_bits(got, read_y(e.get(), a, size)) && same_bits(cb, read_y(e.get(), corr, size)), ep["engine"] << ": more coefficients than terms changed the buffers");
	e->free_buffers(b);
	e->free_buffer(a);
	e->free_buffer(corr);
	c.label(ep["engine"]);
	if(hard) { c.nontrivial(); c.label("plain update exceeds the bound"); }
	if(c.verbose) { c.text << ep["engine"] << " calls=" << calls << " terms=" << nt << " start=" << start << " increments~" << incr << " bodies=" << n; }
}

static void p_sum(pbt::source& s, pbt::ctx& c)
{
	size_t n = s.chance(1, 3) ? 500 + s.draw(5000) : s.draw(300);
	if(s.chance(1, 100)) { n = 50000 + s.draw(250000); }
	vec v(n);
	double start = s.positive(1e-3, 1e3), incr = start * s.positive(1e-12, 1);
	bool signs = s.chance(1, 4);
	uint64_t seed = s.draw(UINT32_MAX);
	uint64_t lead = n ? s.draw(std::min<size_t>(n - 1, 3)) : 0;
	f128 exact = 0, mag = 0;
	double plain = 0;
	for(size_t i = 0; i != n; ++i)
	{
		double u = (pbt::mix(seed + i) % 65536) / 65536.0;
		v[i] = i == lead ? start : incr * (0.25 + u);
		if(signs && (pbt::mix(seed * 3 + i) & 3) == 0) { v[i] = -v[i]; }
		exact += v[i];
		mag += std::fabs(v[i]);
		plain += v[i];
	}
	double got = summation<double>(v.data(), n);
	f128 tol = mag * (3 * EPS + 2 * n * EPS * EPS);
	f128 err = absq(static_cast<f128>(got) - exact);
	PBT_CHECK(err <= tol, "compensated sum of " << n << " numbers is " << got << ", exact " << static_cast<double>(exact) << ", error "
			  << static_cast<double>(err / (mag * EPS)) << " eps of the magnitude");
	if(n && absq(static_cast<f128>(plain) - exact) > tol) { c.nontrivial(); c.label("plain sum exceeds the bound"); }
	if(c.verbose) { c.text << n << " numbers, leading " << start << ", others about " << incr; }
}

static void p_solver(pbt::source& s, pbt::ctx& c)
{
	static const char* const kinds[] = {"adams", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14"};
	std::map<std::string, std::string> sp;
	size_t kind = s.strat(8);
	sp["solver"] = kinds[kind];
	sp["correction"] = "true";
	size_t rank = 0;
	if(kind == 0)
	{
		rank = 1 + s.draw(4);
		sp["rank"] = std::to_string(rank);
		static const char* const st[] = {"euler", "rk4", "rkck", "midpoint"};
		sp["starter_solver"] = st[s.draw(3)];
	}
	else
	{
		sp["min_step"] = "0";
		bool sub = s.chance(1, 3);
		sp["max_recursion"] = std::to_string(sub ? 1 + s.draw(1) : s.draw(3));
		sp["substep_subdivisions"] = std::to_string(2 + s.draw(2));
		sp["error_threshold"] = sub ? "0" : "1";
		if(sub) { c.label("with sub-steps"); }
	}
	nbody_data d;
	dummy_bodies(d, 1);
	ode_engine e;
	e.init(&d);
	size_t steps = 300 + s.draw(kind == 0 ? 4000 : 1200);
	double start = s.positive(1, 1e4);
	// total growth at most a hundredth of the start value so that the plain update is visibly worse
	double growth = start * s.positive(1e-6, 1e-2);
	double dt = s.chance(1, 2) ? 1.0 / 128 : s.positive(1e-3, 1e-1);
	vec y0(6), f(6);
	for(size_t i = 0; i != 6; ++i)
	{
		y0[i] = start * (0.5 + s.unit());
		f[i] = growth / (steps * dt) * (0.25 + s.unit());
		if(s.chance(1, 3)) { f[i] = -f[i]; }
	}
	e.rhs = [&](double, const double*, double * o) { for(size_t i = 0; i != 6; ++i) { o[i] = f[i]; } };
	e.set_state(y0);
	std::unique_ptr<nbody_solver> sv(nbody_create_solver(params(sp)));
	PBT_CHECK(sv != nullptr, "solver not created");
	sv->set_engine(&e);
	// constant right-hand side: coefficients of one step add up to one, their absolute values to 'amp'
	double amp = 30;
	size_t plain_terms = kind == 0 ? rank : 8;
	bool reset = s.chance(1, 8);
	for(size_t k = 0; k != steps; ++k)
	{
		sv->advise(dt);
		if(reset && k == steps / 2) { sv->reset(); }
	}
	vec got = e.state();
	size_t uncomp = (kind == 0 ? (rank + 1) * 8 : 0) * (reset ? 2 : 1);
	for(size_t i = 0; i != 6; ++i)
	{
		f128 exact = y0[i] + static_cast<f128>(steps) * dt * f[i];
		f128 tol = (absq(y0[i]) * (4 + uncomp + (reset ? 1 : 0)) + absq(static_cast<f128>(steps) * dt * f[i]) * amp * 4) * EPS;
		f128 err = absq(static_cast<f128>(got[i]) - exact);
		PBT_CHECK(err <= tol, sp["solver"] << (rank ? " rank " + std::to_string(rank) : "") << " with correction, " << steps << " steps of " << dt << ", y0 " << y0[i] << ", f " << f[i]
				  << ": " << got[i] << ", exact " << static_cast<double>(exact) << ", error " << static_cast<double>(err / (absq(y0[i]) * EPS))
				  << " eps, allowed " << static_cast<double>(tol / (absq(y0[i]) * EPS)));
	}
	// power of the case: the same run without compensation
	sp["correction"] = "false";
	{
		nbody_data d2;
		dummy_bodies(d2, 1);
		ode_engine e2;
		e2.init(&d2);
		e2.rhs = e.rhs;
		e2.set_state(y0);
		std::unique_ptr<nbody_solver> s2(nbody_create_solver(params(sp)));
		s2->set_engine(&e2);
		for(size_t k = 0; k != steps; ++k) { s2->advise(dt); }
		vec g2 = e2.state();
		bool hard = false;
		for(size_t i = 0; i != 6; ++i)
		{
			f128 exact = y0[i] + static_cast<f128>(steps) * dt * f[i];
			f128 tol = (absq(y0[i]) * (4 + uncomp + (reset ? 1 : 0)) + absq(static_cast<f128>(steps) * dt * f[i]) * amp * 4) * EPS;
			if(absq(static_cast<f128>(g2[i]) - exact) > tol) { hard = true; }
		}
		if(hard) { c.nontrivial(); c.label(std::string("plain exceeds the bound: ") + kinds[kind]); }
	}
	(void)plain_terms;
	c.label(kinds[kind]);
	if(c.verbose) { c.text << sp["solver"] << " rank " << rank << " steps=" << steps << " dt=" << dt << " y0~" << start << " growth~" << growth << (reset ? " reset" : ""); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	std::vector<pbt::prop> cpu{{"direct", p_direct, 1200, 200000, 0, 60, false}, {"sum", p_sum, 20000, 500000, 0, 60, false}, {"solver", p_solver, 640, 40000, 0, 60, false}};
	std::vector<pbt::prop> gpu{{"opencl_direct", p_direct, 24, 1200, 0, 120, false}};
	std::vector<pbt::prop> cu{{"cuda_direct", p_direct, 80, 4000, 0, 120, false}};
	return pbt::runner(cuda() ? cu : ocl() ? gpu : cpu).main(argc, argv);
}
