// C25: CUDA engines in the execution model of harness/cuda: creation from parameters, whole simulations, return of all memory
#include "common.h"

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

static std::string val(const pmap& p, const std::string& k)
{
	auto i = p.find(k);
	return i == p.end() ? std::string() : i->second;
}

static void gen_engine(pbt::source& s, pmap& p)
{
	static const std::vector<std::string> en{"cuda", "cuda_bh", "cuda_bh_tex"};
	p["engine"] = en[s.strat(3)];
	if(p["engine"] == "cuda") { return; }
	p["distance_to_node_radius_ratio"] = num(s.chance(1, 2) ? 1e9 : s.positive(1.5, 30));
	if(s.chance(2, 3)) { p["tree_build_rate"] = std::to_string(s.draw(5)); }
	if(p["engine"] == "cuda_bh_tex" && s.chance(2, 3)) { p["tree_layout"] = s.chance(1, 2) ? "heap" : "heap_stackless"; }
}

// a simulation on the devices gives what the processor gives
static void p_run(pbt::source& s, pbt::ctx& c)
{
	pmap p, ref, sp;
	gen_engine(s, p);
	size_t n = gen_cuda(s, c, p);
	if(n > 256) { throw pbt::discard(); }
	ref["engine"] = "simple";
	if(p["engine"] != "cuda")
	{
		// same tree on the processor; a refreshed tree of the same bodies is the same on both
		ref = p;
		ref["engine"] = "simple_bh";
		ref["tree_layout"] = p.count("tree_layout") ? p["tree_layout"] : "heap";
		ref.erase("device");
		ref.erase("block_size");
		ref.erase("use_nccl");
	}
	static const std::vector<std::string> sn{"euler", "rk4", "midpoint", "midpoint-st", "trapeze", "adams", "bs", "rkck", "rkdp", "rkf", "rkgl"};
	sp["solver"] = sn[s.draw(sn.size() - 1)];
	sp["max_step"] = "0.01";
	sp["min_step"] = "1e-6";
	sp["error_threshold"] = s.chance(1, 2) ? "1e10" : "-1";	// never or always refined
	sp["max_recursion"] = std::to_string(s.draw(2));
	sp["substep_subdivisions"] = "2";
	sp["rank"] = std::to_string(1 + s.draw(4));
	sp["starter_solver"] = "rk4";
	sp["max_level"] = "3";
	if(s.chance(1, 3)) { sp["correction"] = "true"; }
	bodies b;
	b.r.resize(n);
	b.v.resize(n);
	b.m.assign(n, 1.0 / static_cast<double>(n));
	size_t side = 1;
	while(side * side * side < n) { ++side; }
	for(size_t i = 0; i != n; ++i)
	{
		// disturbed lattice: no close encounters
		b.r[i] = v3{static_cast<double>(i % side) + 0.3 * s.unit(), static_cast<double>(i / side % side) + 0.3 * s.unit(), static_cast<double>(i / side / side) + 0.3 * s.unit()};
		b.v[i] = v3{0.2 * s.unit() - 0.1, 0.2 * s.unit() - 0.1, 0.2 * s.unit() - 0.1};
		if(s.chance(1, 4)) { b.m[i] *= s.positive(0.1, 10); }
	}
	size_t steps = 1 + s.draw(3);
	double tb = s.chance(1, 2) ? 0 : 0.25 * static_cast<double>(s.draw(9));
	size_t sb = s.draw(4);
	std::vector<vec> res;
	c.text << p["engine"] << " devices " << val(p, "device") << " block " << val(p, "block_size") << " n " << n << " ratio " << val(p, "distance_to_node_radius_ratio") << " rate " << val(p, "tree_build_rate")
		   << " " << sp["solver"] << " steps " << steps;
	for(int k = 0; k != 2; ++k)
	{
		nbody_data d;
		b.fill(d);
		d.set_time(tb);
		d.set_step(sb);
		std::unique_ptr<nbody_engine> e(nbody_create_engine(params(k ? p : ref)));
		std::unique_ptr<nbody_solver> so(nbody_create_solver(params(sp)));
		PBT_CHECK(e != nullptr && so != nullptr && e->init(&d), "engine " << (e ? "" : "not ") << "created, solver " << sp["solver"] << (so ? " created" : " not created"));
		so->set_engine(e.get());
		for(size_t i = 0; i != steps; ++i) { so->advise(0.01); }
		nbody_data out;
		b.fill(out);
		e->get_data(&out);
		vec y = read_y(e.get(), e->get_y(), 6 * n);
		for(size_t i = 0; i != n; ++i)
		{
			nbvertex_t r(out.get_vertites()[i]), v(out.get_velosites()[i]);
			PBT_CHECK(r.x == y[i] && r.y == y[n + i] && r.z == y[2 * n + i] && v.x == y[3 * n + i] && v.y == y[4 * n + i] && v.z == y[5 * n + i], "get_data returns another state for body " << i);
		}
		y.push_back(e->get_time());
		y.push_back(static_cast<double>(e->get_step()));
		y.push_back(static_cast<double>(e->get_compute_count()));
		res.push_back(y);
		e->print_info();
		so.reset();
		e.reset();
	}
#ifdef HAVE_CUDA
	PBT_CHECK(cuemu::live_allocations() == 0, "device memory not returned: " << cuemu::live_allocations() << " allocations left");
#endif
	// both do the same up to the order of sums; only a pair exactly at an opening distance could differ
	double tol = 1e-11 + (p["engine"] == "cuda" ? 0 : 1e-10);
	for(size_t i = 0; i != res[0].size(); ++i)
	{
		PBT_CHECK(std::fabs(res[0][i] - res[1][i]) <= tol * (1 + std::fabs(res[0][i])), p["engine"] << " with " << sp["solver"] << ": component " << i << " of " << 6 * n << " is " << res[1][i] << " instead of " << res[0][i]);
	}
	c.label(p["engine"]);
	c.label("solver " + sp["solver"]);
	c.nontrivial();
}

// parameters of the factory
static void p_factory(pbt::source& s, pbt::ctx& c)
{
	pmap p;
	gen_engine(s, p);
	bool ok = true;
#ifdef HAVE_CUDA
	cuemu::reset(s.draw(100), 0);
#endif
	std::string want = "nbody_engine_" + p["engine"];
	static const std::vector<std::pair<std::string, int>> dev{{"0", 1}, {"7", 1}, {"1,2", 1}, {"3,1,0,2", 1}, {",5,", 1}, {"", 0}, {"8", 0}, {"-1", 0}, {"0,9", 0}, {"x", 0}, {"0;1", 0}, {"1.5", 0}, {"0,,", 1}, {"99999999999", 0}};
	if(s.chance(2, 3))
	{
		auto& q = dev[s.draw(dev.size() - 1)];
		p["device"] = q.first;
		ok = ok && q.second;
	}
	if(p["engine"] == "cuda_bh_tex" && s.chance(1, 3))
	{
		static const std::vector<std::string> tl{"tree", "", "Heap", "heap ", "stackless"};
		p["tree_layout"] = s.pick(tl);
		ok = false;
	}
	int bs = 64;
	if(s.chance(1, 2))
	{
		bs = 1 << s.draw(8);
		p["block_size"] = std::to_string(bs);
	}
	c.text << p["engine"] << " device '" << val(p, "device") << "' layout '" << val(p, "tree_layout") << "'";
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(p)));
	PBT_CHECK((e != nullptr) == ok, p["engine"] << " with device '" << val(p, "device") << "' and layout '" << val(p, "tree_layout") << "' was " << (e ? "created" : "rejected"));
	if(e)
	{
		PBT_CHECK(e->type_name() == want, "created " << e->type_name() << " instead of " << want);
		PBT_CHECK(static_cast<nbody_engine_cuda*>(e.get())->get_block_size() == bs, "block size not honoured");
		c.nontrivial();
	}
	c.label(ok ? "accepted" : "rejected");
	e.reset();
	PBT_CHECK(cuemu::live_allocations() == 0, "device memory not returned");
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"run", p_run, 700, 20000, 0, 120, false}, {"factory", p_factory, 3000, 60000, 0, 30, false}}).main(argc, argv);
}
