// C10: adaptive Runge-Kutta: a recursive reference model decides acceptance and refinement of every (sub)step
#include "ode_engine.h"

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

struct model
{
	const nbody_butcher_table*	bt;
	ode_engine::rhs_t			rhs;
	size_t						n, max_rec, subdiv, refine;
	double						thr, min_step;
	size_t						attempts, accepted, deepest;

	// stages of one attempt
	std::vector<vec> stages(double t, double h, const vec& y)
	{
		size_t st = bt->get_steps();
		std::vector<vec> k(st, vec(n, 0.0));
		if(bt->is_implicit())
		{
			vec f0(n), w(n);
			rhs(t, y.data(), f0.data());
			for(auto& q : k) { q = f0; }
			for(size_t it = 0; it != refine; ++it)
			{
				for(size_t i = 0; i != st; ++i)
				{
					for(size_t j = 0; j != n; ++j)
					{
						ld sum = y[j];
						for(size_t m = 0; m != st; ++m) { sum += static_cast<ld>(h) * bt->get_a()[i][m] * k[m][j]; }
						w[j] = static_cast<double>(sum);
					}
					rhs(t + bt->get_c()[i] * h, w.data(), k[i].data());
				}
			}
			return k;
		}
		vec w(n);
		for(size_t i = 0; i != st; ++i)
		{
			for(size_t j = 0; j != n; ++j)
			{
				ld sum = y[j];
				for(size_t m = 0; m != i; ++m) { sum += static_cast<ld>(h) * bt->get_a()[i][m] * k[m][j]; }
				w[j] = static_cast<double>(sum);
			}
			rhs(t + bt->get_c()[i] * h, w.data(), k[i].data());
		}
		return k;
	}

	void step(double t, double h, vec& y, size_t level)
	{
		if(++attempts > 3000) { throw pbt::discard(); }
		deepest = std::max(deepest, level);
		auto k = stages(t, h, y);
		size_t st = bt->get_steps();
		bool split = false;
		if(bt->is_embedded())
		{
			ld est = 0, mag = 0;
			for(size_t j = 0; j != n; ++j)
			{
				ld e = 0, q = 0;
				for(size_t m = 0; m != st; ++m)
				{
					ld cf = static_cast<ld>(bt->get_b2()[m]) - bt->get_b1()[m];
					e += cf * k[m][j];
					q += fabsl(k[m][j]) * (fabsl(cf) + 1e-3L);
				}
				est = std::max(est, fabsl(e));
				mag = std::max(mag, q);
			}
			// too close to call
			bool may = level < max_rec && h > min_step;
			if(may && fabsl(est - thr) <= 1e-6L * thr + 1e-9L * mag) { throw pbt::discard(); }
			split = may && est > thr;
		}
		if(split)
		{
			double nh = h / static_cast<double>(subdiv);
			for(size_t i = 0; i != subdiv; ++i, t += nh) { step(t, nh, y, level + 1); }
			return;
		}
		++accepted;
		for(size_t j = 0; j != n; ++j)
		{
			ld sum = y[j];
			for(size_t m = 0; m != st; ++m) { sum += static_cast<ld>(h) * bt->get_b2()[m] * k[m][j]; }
			y[j] = static_cast<double>(sum);
		}
	}
};

static void p_adapt(pbt::source& s, pbt::ctx& c)
{
	static const char* const names[] = {"rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rklc", "rkgl"};
	std::string name = names[s.strat(9)];
	size_t max_rec = s.draw(4), subdiv = s.chance(1, 3) ? 8 : 2 + s.draw(4);
	if(max_rec > 2 && subdiv > 4) { subdiv = 3; }
	bool deep = s.chance(1, 8);
	if(deep) { max_rec = 5 + s.draw(4); subdiv = 2; }
	// the same problem in larger or smaller units
	double S = s.chance(1, 6) ? std::ldexp(1, static_cast<int>(s.range(-90, 90))) : 1;
	double thr = S * std::pow(10, -1 - 9 * s.unit());
	double dt = s.chance(1, 2) ? 0.25 : s.positive(0.02, 0.5);
	double min_step = 0;
	switch(s.draw(3))
	{
	case 0: break;
	case 1: min_step = dt; for(size_t k = s.draw(deep ? 8 : 3); k; --k) { min_step /= static_cast<double>(subdiv); } break;	// exactly a substep size
	case 2: min_step = dt * s.positive(1e-4, 2); break;
	default: min_step = 1e-9;
	}
	bool implicit = name == "rklc" || name == "rkgl";
	bool corr = !implicit && s.chance(1, 4);
	size_t nb = 1 + s.draw(2), n = 6 * nb;
	// one bump per component at its own time, with its own width: only some (sub)steps and some components need refinement
	vec amp(n), tc(n), w(n), lin(n);
	double t0 = s.chance(1, 2) ? 0 : s.number(4);
	size_t nsteps = 1 + s.draw(deep ? 1 : 4);
	bool single = s.chance(1, 3);
	size_t hot = s.draw(n - 1);
	for(size_t i = 0; i != n; ++i)
	{
		amp[i] = (single && i != hot) ? 0 : s.number(2);
		tc[i] = t0 + dt * static_cast<double>(nsteps) * s.unit();
		w[i] = dt * (deep ? s.positive(0.001, 0.2) : s.positive(0.05, 3));
		lin[i] = s.number(1);
	}
	ode_engine::rhs_t rhs = [ = ](double t, const double * y, double * f)
	{
		for(size_t i = 0; i != n; ++i)
		{
			double u = (t - tc[i]) / w[i];
			f[i] = S * (amp[i] / (1 + u * u) + lin[i] * std::sin(y[(i + 1) % n] / S) * (amp[i] != 0 ? 1 : 0.01));
		}
	};
	size_t refine = implicit ? 80 : 1;
	pmap sp = {{"solver", name}, {"max_recursion", std::to_string(max_rec)}, {"substep_subdivisions", std::to_string(subdiv)}, {"error_threshold", num(thr)},
		{"refine_steps_count", std::to_string(refine)}, {"correction", corr ? "true" : "false"}, {"min_step", num(min_step)}, {"max_step", num(dt)}};
	nbody_data d;
	dummy_bodies(d, nb);
	ode_engine e;
	e.init(&d);
	e.rhs = rhs;
	vec y0(n);
	for(auto& v : y0) { v = S * s.number(2); }
	e.set_state(y0);
	e.set_time(t0);
	std::unique_ptr<nbody_solver> sv(nbody_create_solver(params(sp)));
	sv->set_engine(&e);
	nbody_solver_rk_butcher* rk = dynamic_cast<nbody_solver_rk_butcher*>(sv.get());
	PBT_CHECK(rk != nullptr, name << " is not a table driven solver");
	model m{rk->table(), rhs, n, max_rec, subdiv, refine, thr, min_step, 0, 0, 0};
	vec y = y0;
	double t = t0;
	std::ostringstream id;
	id.precision(17);
	id << name << " threshold " << thr << " recursion " << max_rec << " subdivisions " << subdiv << " min step " << min_step << " dt " << dt << " t0 " << t0 << (corr ? " corrected" : "");
	for(size_t k = 0; k != nsteps; ++k)
	{
		double h = s.chance(1, 4) ? dt * (1 + static_cast<double>(s.draw(3))) / 2 : dt;
		size_t before = m.accepted;
		m.step(t, h, y, 0);
		sv->advise(h);
		t += h;
		PBT_CHECK(e.get_time() == t, id.str() << ": time after step " << k << " is " << e.get_time() << ", expected " << t);
		vec got = e.state();
		for(size_t i = 0; i != n; ++i)
		{
			double tol = 3e-13 * (5 * S + std::fabs(y[i]) + std::fabs(y0[i])) * static_cast<double>(5 + m.accepted);
			PBT_CHECK(std::fabs(got[i] - y[i]) <= tol, id.str() << ": after step " << k << " (size " << h << ", " << m.accepted - before << " accepted sub-steps expected) component " << i << " is "
					  << got[i] << ", the refinement rule gives " << y[i]);
		}
		y = got;	// stay on the computed trajectory
	}
	c.label(name);
	if(m.deepest) { c.label("refined to level " + std::to_string(m.deepest)); }
	if(m.deepest && m.accepted < static_cast<size_t>(std::pow(subdiv, m.deepest)) * nsteps) { c.label("partly refined"); c.nontrivial(); }
	if(c.verbose) { c.text << id.str() << " steps " << nsteps << ": " << m.attempts << " attempts, " << m.accepted << " accepted, deepest level " << m.deepest; }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"adapt", p_adapt, 20000, 500000, 0, 60, false}}).main(argc, argv);
}
