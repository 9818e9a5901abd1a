// C07: results are bit-identical for any number of threads and any schedule
#include "common.h"

typedef std::map<std::string, std::string> pmap;

struct outcome
{
	std::vector<std::vector<double>>	states;
	std::vector<double>					scalars;
};

static bool same(const std::vector<double>& a, const std::vector<double>& b)
{
	return a.size() == b.size() && memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0;
}

static outcome simulate(const bodies& b, const pmap& ep, const pmap& sp, size_t steps, double dt, int threads, size_t step0, bool stats, size_t direct)
{
	omp_set_num_threads(threads);
	outcome o;
	nbody_data d;
	b.fill(d);
	d.set_step(step0);
	d.set_check_list("P,L,V,E");
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(ep)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	size_t size = e->problem_size();
	if(direct)
	{
		nbody_engine::memory* f = e->create_buffer(sizeof(double) * size);
		nbody_engine::memory* t = e->create_buffer(sizeof(double) * size);
		nbody_engine::memory* corr = e->create_buffer(sizeof(double) * size);
		e->fill_buffer(corr, 0);
		for(size_t k = 0; k != direct; ++k)
		{
			e->set_step(step0 + k);
			e->fcompute(0, e->get_y(), f);
			o.states.push_back(read_y(e.get(), f, size));
			e->fmadd(t, e->get_y(), f, dt);
			double r = 0;
			e->fmaxabs(t, r);
			o.scalars.push_back(r);
			nbody_engine::memory_array v{t, f};
			double co[] = {dt, -dt / 3};
			e->fmaddn_corr(e->get_y(), corr, v, co, 2);
			e->clamp(e->get_y(), 50);
			e->copy_buffer(t, e->get_y());
			o.states.push_back(read_y(e.get(), t, size));
		}
		e->free_buffer(f);
		e->free_buffer(t);
		e->free_buffer(corr);
	}
	std::unique_ptr<nbody_solver> s(nbody_create_solver(params(sp)));
	PBT_CHECK(s != nullptr, "solver not created");
	s->set_engine(e.get());
	for(size_t k = 0; k != steps; ++k)
	{
		s->advise(dt);
		o.states.push_back(read_y(e.get(), e->get_y(), size));
		o.scalars.push_back(d.get_time());
		o.scalars.push_back(static_cast<double>(d.get_step()));
		if(stats)
		{
			d.print_statistics(e.get());
			nbvertex_t p(d.get_last_total_impulce()), l(d.get_last_total_impulce_moment()), m(d.get_last_mass_center());
			for(double x : {p.x, p.y, p.z, l.x, l.y, l.z, m.x, m.y, m.z, d.get_last_total_energy(), d.get_energy_err()}) { o.scalars.push_back(x); }
		}
	}
	return o;
}

static void p_threads(pbt::source& s, pbt::ctx& c)
{
	static const pmap list[] =
	{
		{{"engine", "openmp"}}, {{"engine", "block"}}, {{"engine", "ah"}},
		{{"engine", "simple_bh"}, {"tree_layout", "tree"}, {"traverse_type", "cycle"}},
		{{"engine", "simple_bh"}, {"tree_layout", "tree"}, {"traverse_type", "nested_tree"}},
		{{"engine", "simple_bh"}, {"tree_layout", "heap"}, {"traverse_type", "cycle"}},
		{{"engine", "simple_bh"}, {"tree_layout", "heap"}, {"traverse_type", "nested_tree"}},
		{{"engine", "simple_bh"}, {"tree_layout", "heap_stackless"}, {"traverse_type", "cycle"}},
		{{"engine", "simple_bh"}, {"tree_layout", "heap_stackless"}, {"traverse_type", "nested_tree"}}
	};
	pmap ep = list[s.strat(9)];
	static const char* const solvers[] = {"euler", "rk4", "adams", "bs", "midpoint", "midpoint-st", "rkck", "rkdp", "rkf", "rkfeagin10", "rkgl", "trapeze"};
	pmap sp{{"solver", solvers[s.draw(11)]}};
	if(sp["solver"] == "adams") { sp["rank"] = std::to_string(1 + s.draw(4)); sp["correction"] = s.chance(1, 2) ? "true" : "false"; }
	if(sp["solver"].substr(0, 2) == "rk" && s.chance(1, 2)) { sp["correction"] = "true"; }
	sp["max_recursion"] = "1";
	sp["max_level"] = "3";
	size_t n = s.chance(1, 2) ? s.size(1, 80) : 100 + s.draw(s.chance(1, 4) ? 1200 : 250);
	bodies b = gen_bodies(s, c, n, 10, true);
	size_t step0 = s.draw(3);
	if(ep["engine"] == "simple_bh")
	{
		ep["tree_build_rate"] = std::to_string(s.draw(3));
		ep["distance_to_node_radius_ratio"] = num(s.positive(1.1, 10));
	}
	if(ep["engine"] == "ah") { ep["full_recompute_rate"] = std::to_string(1 + s.draw(4)); ep["max_dist"] = num(s.positive(0.5, 20)); ep["min_force"] = num(s.positive(1e-4, 10)); }
	bool heavy = sp["solver"] == "bs" || sp["solver"] == "rkfeagin10" || sp["solver"] == "rkf";
	size_t steps = n > 400 ? 1 : 1 + s.draw(heavy ? 1 : 3), direct = s.draw(3);
	double dt = s.positive(1e-3, 1e-1);
	bool stats = s.chance(1, 3) && n < 400;
	outcome ref = simulate(b, ep, sp, steps, dt, 1, step0, stats, direct);
	static const int counts[] = {2, 3, 4, 8, 5, 7, 16, 6, 1};
	size_t runs = 2 + s.draw(3);
	for(size_t r = 0; r != runs; ++r)
	{
		int th = counts[s.draw(8)];
		outcome o = simulate(b, ep, sp, steps, dt, th, step0, stats, direct);
		PBT_CHECK(o.states.size() == ref.states.size(), "different number of states");
		for(size_t k = 0; k != ref.states.size(); ++k)
		{
			if(!same(o.states[k], ref.states[k]))
			{
				size_t i = 0;
				while(memcmp(&o.states[k][i], &ref.states[k][i], 8) == 0) { ++i; }
				PBT_CHECK(false, ep["engine"] << " " << ep["tree_layout"] << " " << ep["traverse_type"] << " " << sp["solver"] << " " << n << " bodies: with " << th
						  << " threads value " << i << " of result " << k << " is " << o.states[k][i] << ", with one thread " << ref.states[k][i]);
			}
		}
		for(size_t k = 0; k != ref.scalars.size(); ++k)
		{
			PBT_CHECK(memcmp(&o.scalars[k], &ref.scalars[k], 8) == 0, ep["engine"] << " " << sp["solver"] << " " << n << " bodies: reported quantity " << k << " is "
					  << o.scalars[k] << " with " << th << " threads, " << ref.scalars[k] << " with one");
		}
	}
	c.label(ep["engine"] + " " + ep["tree_layout"] + " " + ep["traverse_type"]);
	c.label("solver " + sp["solver"]);
	if(n > 64) { c.label("above task threshold"); }
	if(stats) { c.label("statistics"); }
	if(n >= 8) { c.nontrivial(); }
	if(c.verbose) { c.text << ep["engine"] << " " << ep["tree_layout"] << " " << sp["solver"] << " steps=" << steps << " direct=" << direct << " runs=" << runs << " " << b.str(2); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"threads", p_threads, 500, 60000, 0, 120, true}}).main(argc, argv);
}
