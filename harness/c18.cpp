// C18: extrapolation tables against their definition in quad precision; Bulirsch-Stoer steps against a reference model
#include "ode_engine.h"
#include "nbody_extrapolator.h"
#include "nbody_solver_bulirsch_stoer.h"
#include "nbody_solver_midpoint_stetter.h"

typedef __float128 q128;
typedef std::vector<double> vec;

static q128 qabs(q128 v) { return v < 0 ? -v : v; }

// value at zero of the polynomial in x through (1/a_i, y_i), i = first..last (Lagrange form, a_i = n_i^order)
static q128 lagrange0(const std::vector<q128>& a, const std::vector<vec>& y, size_t first, size_t last, size_t comp)
{
	q128 sum = 0;
	for(size_t i = first; i <= last; ++i)
	{
		q128 w = 1;
		for(size_t j = first; j <= last; ++j)
		{
			// (0 - x_j)/(x_i - x_j) with x = 1/a
			if(j != i) { w *= a[i] / (a[i] - a[j]); }
		}
		sum += w * y[i][comp];
	}
	return sum;
}

// bound of the rounding error of the Neville scheme for the value through first..last
static double neville_bound(const std::vector<q128>& a, const std::vector<vec>& y, size_t first, size_t last, size_t comp)
{
	// err[i]: interpolant through i..i+len
	std::vector<double> err(last + 1, 0), mag(last + 1, 0);
	for(size_t i = first; i <= last; ++i) { mag[i] = std::fabs(y[i][comp]); }
	for(size_t len = 1; len <= last - first; ++len)
	{
		for(size_t i = first; i + len <= last; ++i)
		{
			double hi = static_cast<double>(a[i + len] / (a[i + len] - a[i])), lo = static_cast<double>(a[i] / (a[i + len] - a[i]));
			hi = std::fabs(hi);
			lo = std::fabs(lo);
			err[i] = hi * err[i + 1] + lo * err[i] + 2e-15 * (hi * mag[i + 1] + lo * mag[i]);
			mag[i] = hi * mag[i + 1] + lo * mag[i];
		}
	}
	return err[first] + 1e-300;
}

static void table(pbt::source& s, pbt::ctx& c)
{
	const bool berrut = s.strat(2) == 1;
	const bool omp = s.strat(2, 2) == 1;
	size_t order = static_cast<size_t>(s.range(1, 4));
	size_t levels = static_cast<size_t>(s.range(1, 9));
	size_t bodies_n = s.chance(1, 200) ? 20 + s.draw(300) : s.size(1, 4);
	std::vector<size_t> steps;
	uint64_t kind = s.draw(3);
	size_t st = static_cast<size_t>(s.range(1, 4));
	for(size_t i = 0; i != levels; ++i)
	{
		if(kind == 0) { steps.push_back(2 * (i + 1)); }
		else if(kind == 1) { steps.push_back(i < 3 ? 2 * (i + 1) : 2 * steps[i - 2]); }
		else if(kind == 2) { steps.push_back(st); st += static_cast<size_t>(s.range(1, 5)); }
		else { steps.push_back(st); st *= static_cast<size_t>(s.range(2, 3)); if(st > 8000) { levels = i + 1; break; } }
	}
	while(levels > 1 && std::pow(static_cast<double>(steps.back()), static_cast<double>(order)) > 4e15) { steps.pop_back(); --levels; }
	c.label(berrut ? "berrut" : "neville");
	c.label("order " + std::to_string(order));
	std::unique_ptr<nbody_engine> e(omp ? static_cast<nbody_engine*>(new nbody_engine_openmp) : new nbody_engine_simple);
	nbody_data d;
	dummy_bodies(d, bodies_n);
	PBT_CHECK(e->init(&d), "engine init failed");
	const size_t n = e->problem_size();
	const vec y_before = read_y(e.get(), e->get_y(), n);
	std::unique_ptr<nbody_extrapolator> x(nbody_create_extrapolator(berrut ? "berrut" : "neville", e.get(), order, steps));
	PBT_CHECK(x != nullptr, "no extrapolator created");
	PBT_CHECK(nbody_create_extrapolator(s.pick(std::vector<QString>{"", "Neville", "linear", "berrut "}), e.get(), order, steps) == nullptr, "an unknown extrapolator type was created");
	std::vector<q128> a;
	for(size_t v : steps)
	{
		q128 p = 1;
		for(size_t i = 0; i != order; ++i) { p *= v; }
		a.push_back(p);
	}
	c.text << (berrut ? "berrut" : "neville") << " order " << order << " steps";
	for(size_t v : steps) { c.text << " " << v; }
	struct mem_guard
	{
		nbody_engine* e;
		nbody_engine::memory* m;
		~mem_guard() { e->free_buffer(m); }
	};
	mem_guard in{e.get(), e->create_buffer(sizeof(double) * n)}, out{e.get(), e->create_buffer(sizeof(double) * n)};
	size_t rounds = static_cast<size_t>(s.range(1, 3)), most = 0;
	for(size_t r = 0; r != rounds; ++r)
	{
		size_t upto = static_cast<size_t>(s.range(0, static_cast<int64_t>(levels) - 1));
		if(s.chance(1, 2)) { upto = levels - 1; }
		most = std::max(most, upto);
		uint64_t data_kind = s.draw(3);
		double scale = s.positive(1e-3, 1e3);
		std::vector<double> coef;
		for(size_t i = 0; i != 4; ++i) { coef.push_back(s.number(scale)); }
		std::vector<vec> y;
		c.text << " | round up to level " << upto << " data kind " << data_kind;
		for(size_t k = 0; k <= upto; ++k)
		{
			vec v(n);
			double h = 1 / static_cast<double>(a[k]);
			for(size_t i = 0; i != n; ++i)
			{
				switch(data_kind)
				{
				case 0: v[i] = s.number(scale); break;
				case 1: v[i] = coef[0] + (coef[1] + i % 24) * h + coef[2] * h * h; break;
				case 2: v[i] = coef[0] + i; break;
				default: v[i] = coef[0] * std::exp(h * (i % 24 + 1)); break;
				}
			}
			y.push_back(v);
			e->write_buffer(in.m, v.data());
			x->update_table(k, in.m);
			e->fill_buffer(in.m, 12345.0);	// the table must not depend on the caller's buffer any more
			if(k != upto && s.chance(1, 2)) { continue; }
			size_t queries = static_cast<size_t>(s.range(1, 3));
			for(size_t q = 0; q != queries; ++q)
			{
				if(s.draw(1) == 0)
				{
					// extrapolated value
					size_t lev = berrut ? static_cast<size_t>(s.range(0, static_cast<int64_t>(k) + 1)) : k;
					e->fill_buffer(out.m, 777.0);
					x->extrapolate(lev, out.m);
					vec got = read_y(e.get(), out.m, n);
					for(size_t i = 0; i != n; ++i)
					{
						q128 want = 0;
						double tol;
						if(berrut)
						{
							q128 ws = 0, mag = 0, sum = 0;
							for(size_t j = 0; j != lev; ++j)
							{
								q128 w = (j & 1) ? a[j] : -a[j];
								ws += w;
								sum += w * y[j][i];
								mag += a[j] * qabs(y[j][i]);
							}
							want = lev ? sum / ws : 0;
							q128 wmag = 0;
							for(size_t j = 0; j != lev; ++j) { wmag += a[j]; }
							tol = lev ? static_cast<double>(mag / qabs(ws)) * 5e-15 * static_cast<double>(wmag / qabs(ws)) : 0;
						}
						else
						{
							want = lagrange0(a, y, 0, k, i);
							tol = neville_bound(a, y, 0, k, i);
						}
						PBT_CHECK(qabs(want - got[i]) <= tol, "extrapolation of component " << i << " at level " << lev << " is " << got[i] << ", definition gives " << static_cast<double>(want) << " (allowed difference " << tol << ")");
					}
				}
				else
				{
					size_t lev = berrut ? static_cast<size_t>(s.range(0, static_cast<int64_t>(k) + 1)) : k;
					double est = x->estimate_error(lev);
					if(lev == 0)
					{
						PBT_CHECK(est == std::numeric_limits<double>::max(), "the estimate at the lowest level is " << est);
						continue;
					}
					q128 want = 0;
					double tol = 0;
					for(size_t i = 0; i != n; ++i)
					{
						if(berrut)
						{
							q128 v[2], t = 0;
							for(size_t z = 0; z != 2; ++z)
							{
								q128 ws = 0, sum = 0, mag = 0, wmag = 0;
								for(size_t j = 0; j != lev - z; ++j)
								{
									q128 w = (j & 1) ? a[j] : -a[j];
									ws += w;
									sum += w * y[j][i];
									mag += a[j] * qabs(y[j][i]);
									wmag += a[j];
								}
								v[z] = lev - z ? sum / ws : 0;
								if(lev - z) { t += mag / qabs(ws) * wmag / qabs(ws); }
							}
							want = std::max(want, qabs(v[0] - v[1]));
							tol = std::max(tol, static_cast<double>(t) * 1e-14);
						}
						else
						{
							// all results so far against all of them but the first
							q128 v0 = lagrange0(a, y, 0, k, i), v1 = lagrange0(a, y, 1, k, i);
							want = std::max(want, qabs(v0 - v1));
							tol = std::max(tol, neville_bound(a, y, 0, k, i) + neville_bound(a, y, 1, k, i));
						}
					}
					PBT_CHECK(qabs(want - est) <= tol, "error estimate at level " << lev << " is " << est << ", definition gives " << static_cast<double>(want) << " (allowed difference " << tol << ")");
				}
			}
		}
	}
	PBT_CHECK(read_y(e.get(), e->get_y(), n) == y_before, "extrapolation changed the state of the engine");
	if(most >= 2) { c.nontrivial(); }
}

// Bulirsch-Stoer steps: real sub-stepped solutions, independent table and decision
static void bs(pbt::source& s, pbt::ctx& c)
{
	size_t max_level = static_cast<size_t>(s.range(3, 8));
	double thr = s.positive(1e-13, 1e-2);
	std::vector<size_t> sub{2, 4, 6};
	for(size_t j = 3; j < max_level; ++j) { sub.push_back(2 * sub[j - 2]); }
	double om[3] = {s.number(2), s.number(2), s.number(2)}, k1 = s.number(2), k2 = s.number(1);
	auto rhs = [&](double t, const double* y, double* f)
	{
		for(size_t i = 0; i != 6; ++i)
		{
			f[i] = om[i % 3] * y[(i + 1) % 6] + k1 * std::cos(t * (1 + i)) - k2 * y[i] * y[(i + 2) % 6] / (1 + y[i] * y[i]);
		}
	};
	ode_engine e, ref;
	e.rhs = rhs;
	ref.rhs = rhs;
	nbody_data d, dref;
	dummy_bodies(d, 1);
	dummy_bodies(dref, 1);
	PBT_CHECK(e.init(&d) && ref.init(&dref), "engine init failed");
	const size_t n = 6;
	nbody_solver_bulirsch_stoer solver(max_level, thr);
	solver.set_engine(&e);
	double t0 = s.number(3);
	e.set_time(t0);
	vec y;
	for(size_t i = 0; i != n; ++i) { y.push_back(s.number(2)); }
	e.set_state(y);
	size_t steps = static_cast<size_t>(s.range(1, 5));
	c.text << "max_level " << max_level << " threshold " << thr << " t0 " << t0 << " steps";
	std::vector<q128> a;
	for(size_t v : sub) { a.push_back(static_cast<q128>(v) * v); }
	size_t reached = 0;
	for(size_t k = 0; k != steps; ++k)
	{
		double dt = s.positive(1e-3, 1);
		c.text << " " << dt;
		std::vector<vec> res;
		size_t level = 0;
		double tol_v = 0;
		vec want(n);
		for(;; ++level)
		{
			nbody_solver_midpoint_stetter st;
			st.set_engine(&ref);
			ref.set_state(y);
			ref.set_time(t0);
			for(size_t i = 0; i != sub[level]; ++i) { st.advise(dt / sub[level]); }
			res.push_back(ref.state());
			for(double v : res.back()) { if(!std::isfinite(v) || std::fabs(v) > 1e6) { throw pbt::discard(); } }
			if(level < 2) { continue; }
			q128 est = 0;
			double tol = 0;
			for(size_t i = 0; i != n; ++i)
			{
				q128 v = lagrange0(a, res, 0, level, i);
				est = std::max(est, qabs(v - lagrange0(a, res, 1, level, i)));
				tol = std::max(tol, neville_bound(a, res, 0, level, i) + neville_bound(a, res, 1, level, i));
				want[i] = static_cast<double>(v);
			}
			tol_v = tol;
			bool last = level + 1 == max_level;
			if(!last && qabs(est - thr) <= tol + 1e-9 * thr) { throw pbt::discard(); }
			if(last || est < thr) { break; }
		}
		reached = std::max(reached, level);
		c.label("accepted at level " + std::to_string(level));
		solver.advise(dt);
		vec got = e.state();
		for(size_t i = 0; i != n; ++i)
		{
			PBT_CHECK(std::fabs(got[i] - want[i]) <= tol_v + 1e-15 * std::fabs(want[i]), "step " << k << " component " << i << ": " << got[i] << " instead of " << want[i] << " (extrapolation through the levels 0.." << level << ")");
		}
		t0 += dt;
		PBT_CHECK(e.get_time() == t0, "time after the step is " << e.get_time() << " instead of " << t0);
		y = got;	// the step itself was judged; go on from the actual state
		if(s.chance(1, 4))
		{
			for(auto& v : y) { v = s.number(2); }
			e.set_state(y);
		}
	}
	if(reached >= 3) { c.nontrivial(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"table", table, 60000, 3000000, 0, 20, false}, {"bs", bs, 30000, 800000, 0, 20, false}}).main(argc, argv);
}
