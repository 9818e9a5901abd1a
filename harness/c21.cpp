// C21: clamping
#include "ode_engine.h"

typedef std::vector<double> vec;

// wraps once per axis
static double wrap(double x, double b)
{
	if(x > b) { return x - 2 * b; }
	if(x < -b) { return x + 2 * b; }
	return x;
}

static void clamp(pbt::source& s, pbt::ctx& c)
{
	std::map<std::string, std::string> ep;
	size_t n;
	if(cuda())
	{
		static const std::vector<std::string> en{"cuda", "cuda_bh", "cuda_bh_tex"};
		ep["engine"] = en[s.strat(en.size())];
		n = gen_cuda(s, c, ep);
	}
	else if(ocl())
	{
		size_t bs = static_cast<size_t>(1) << s.draw(4);
		n = bs * s.size(1, 8);
		ep["engine"] = s.chance(1, 3) ? "opencl_bh" : "opencl";
		ep["block_size"] = std::to_string(bs);
		if(s.chance(2, 3)) { ep["device"] = gen_devices(s, c, n, bs); }
	}
	else
	{
		static const std::vector<std::string> en{"simple", "openmp", "block", "ah", "simple_bh"};
		ep["engine"] = en[s.strat(en.size())];
		n = s.chance(1, 200) ? 150 + s.draw(4000) : s.size(1, 150);
	}
	c.label(ep["engine"]);
	double b = s.draw(2) == 0 ? static_cast<double>(s.range(1, 100)) : s.positive(1e-3, 1e12);
	nbody_data d;
	dummy_bodies(d, n);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(ep)));
	PBT_CHECK(e && e->init(&d), "engine not created");
	size_t outside = 0;
	auto coord = [&]() -> double
	{
		switch(s.draw(7))
		{
		case 0: return b;
		case 1: return -b;
		case 2: return s.chance(1, 2) ? std::nextafter(b, 2 * b) : std::nextafter(-b, -2 * b);
		case 3: return b * (1 + s.unit() * 2);
		case 4: return -b * (1 + s.unit() * 2);
		case 5: return b * (2 * s.unit() - 1);
		case 6: return (s.chance(1, 2) ? -1 : 1) * b * s.positive(3, 1e3);
		default: return s.chance(1, 2) ? std::nextafter(b, 0) : std::nextafter(-b, 0);
		}
	};
	vec y(6 * n);
	for(size_t i = 0; i != 3 * n; ++i)
	{
		y[i] = coord();
		outside += std::fabs(y[i]) > b;
	}
	for(size_t i = 3 * n; i != 6 * n; ++i) { y[i] = coord(); }
	c.text << ep["engine"] << " n " << n << " b " << b << " outside " << outside;
	bool own = s.chance(1, 2);
	nbody_engine::memory* mem = own ? e->get_y() : e->create_buffer(sizeof(double) * e->problem_size());
	load_state(e.get(), mem, y, s.chance(1, 2));
	size_t rounds = static_cast<size_t>(s.range(1, 3));
	for(size_t k = 0; k != rounds; ++k)
	{
		vec want(y);
		for(size_t i = 0; i != 3 * n; ++i) { want[i] = wrap(y[i], b); }
		e->clamp(mem, b);
		vec got = read_y(e.get(), mem, 6 * n);
		for(size_t i = 0; i != 6 * n; ++i)
		{
			PBT_CHECK(got[i] == want[i], ep["engine"] << ": component " << i % n << "/" << i / n << " = " << y[i] << " clamped to " << got[i] << " instead of " << want[i] << " (box " << b << ", " << n << " bodies)");
		}
		y = got;
	}
	if(!own) { e->free_buffer(mem); }
	if(outside && n >= 2) { c.nontrivial(); }
}

// the run wraps before each step, with the box of the data, if asked for
template<class BASE> class run_engine : public ode_engine_t<BASE>
{
public:
	std::vector<std::pair<int, double>>	log;	// 1: clamp of the state, 2: evaluation
	void clamp(nbody_engine::memory* y, nbcoord_t b) override
	{
		log.push_back({y == this->get_y() ? 1 : 3, b});
		ode_engine_t<BASE>::clamp(y, b);
	}
	void fcompute(const nbcoord_t& t, const nbody_engine::memory* y, nbody_engine::memory* f) override
	{
		log.push_back({2, t});
		ode_engine_t<BASE>::fcompute(t, y, f);
	}
};

static void run(pbt::source& s, pbt::ctx& c)
{
	run_engine<nbody_engine_simple> e;
	size_t n = s.size(1, 5);
	bool clamp = s.strat(2) == 1;
	nbody_data d;
	dummy_bodies(d, n);
	double box = static_cast<double>(s.range(1, 30));
	d.set_box_size(box);
	static const std::vector<std::string> sn{"euler", "rk4", "midpoint", "rkck", "adams", "bs"};
	std::string type = s.pick(sn);
	std::map<std::string, std::string> sp{{"solver", type}, {"max_recursion", "0"}, {"rank", "3"}, {"starter_solver", "rk4"}};
	double dt = std::ldexp(1.0, -static_cast<int>(s.range(3, 6)));
	sp["max_step"] = num(dt);
	sp["clamp"] = clamp ? "1" : "0";
	std::unique_ptr<nbody_solver> so(nbody_create_solver(params(sp)));
	PBT_CHECK(so != nullptr, "no solver");
	// straight motion with large velocities: the exact wrapped path is known for euler-like methods
	e.rhs = [n](double, const double* y, double* f) { for(size_t i = 0; i != 3 * n; ++i) { f[i] = y[3 * n + i]; f[3 * n + i] = 0; } };
	PBT_CHECK(e.init(&d), "init failed");
	so->set_engine(&e);
	vec y(6 * n);
	for(size_t i = 0; i != 3 * n; ++i)
	{
		y[i] = static_cast<double>(s.range(-40, 40));
		y[3 * n + i] = static_cast<double>(s.range(-300, 300));
	}
	e.set_state(y);
	size_t steps = static_cast<size_t>(s.range(1, 12));
	double t_end = dt * static_cast<double>(steps);
	double dump = s.chance(1, 2) ? 0 : dt * static_cast<double>(s.range(1, 4));
	double check = s.chance(1, 2) ? 0 : dt * static_cast<double>(s.range(1, 4));
	c.text << type << " clamp " << clamp << " box " << box << " n " << n << " dt " << dt << " steps " << steps << " dump " << dump << " check " << check;
	e.log.clear();
	int r = so->run(&d, nullptr, t_end, dump, check);
	PBT_CHECK(r == 0, "run failed");
	size_t clamps = 0;
	for(auto& p : e.log)
	{
		PBT_CHECK(p.first != 3, "something else than the state was clamped");
		if(p.first == 1)
		{
			++clamps;
			PBT_CHECK(p.second == box, "clamped to " << p.second << " instead of the box " << box);
		}
	}
	PBT_CHECK(clamps == (clamp ? steps : 0), "the state was clamped " << clamps << " times in " << steps << " steps, clamp=" << clamp);
	// model of the path
	vec w(y);
	bool wrapped = false;
	for(size_t k = 0; k != steps; ++k)
	{
		for(size_t i = 0; i != 3 * n; ++i)
		{
			if(clamp)
			{
				// on the border rounding decides
				if(type != "euler" && std::fabs(std::fabs(w[i]) - box) < 1e-6 && k > 0) { throw pbt::discard(); }
				double q = wrap(w[i], box);
				wrapped = wrapped || q != w[i];
				w[i] = q;
			}
			w[i] += dt * w[3 * n + i];
		}
	}
	vec got = e.state();
	for(size_t i = 0; i != 6 * n; ++i)
	{
		// dyadic steps, integer states: the methods are exact up to rounding of their coefficients
		PBT_CHECK(std::fabs(got[i] - w[i]) <= 1e-9 * (1 + std::fabs(w[i])), "component " << i << " is " << got[i] << " instead of " << w[i]);
	}
	c.label(clamp ? "clamping run" : "plain run");
	if(wrapped || !clamp) { c.nontrivial(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	if(cuda()) { return pbt::runner({{"cuda", clamp, 1500, 60000, 0, 120, false}}).main(argc, argv); }
	if(ocl()) { return pbt::runner({{"opencl", clamp, 350, 8000, 0, 120, false}}).main(argc, argv); }
	return pbt::runner({{"clamp", clamp, 60000, 1500000, 0, 20, false}, {"run", run, 30000, 800000, 0, 20, false}}).main(argc, argv);
}
