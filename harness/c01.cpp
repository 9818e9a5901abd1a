// C01: exact engines against the Newtonian formula in extended precision
#include "common.h"

static std::vector<std::map<std::string, std::string>> engines()
{
	if(ocl()) { return {{{"engine", "opencl"}}}; }
	if(cuda()) { return {{{"engine", "cuda"}}}; }
	return {{{"engine", "simple"}}, {{"engine", "openmp"}}, {{"engine", "block"}}};
}

static void check_result(const std::string& name, const std::vector<double>& y, const std::vector<double>& m, const std::vector<double>& f)
{
	size_t n = m.size();
	accel a = reference_accel(y, m);
	for(size_t i = 0; i != n; ++i)
	{
		for(int k = 0; k != 3; ++k)
		{
			PBT_CHECK(f[k * n + i] == y[(3 + k) * n + i], name << ": position derivative of body " << i << "/" << n << " axis " << k << " is "
					  << f[k * n + i] << ", velocity is " << y[(3 + k) * n + i]);
		}
		if(!judged(i, n)) { continue; }
		// every contribution is computed from the exact difference of two doubles up to a few roundings
		ld tol = a.cond[i] * (24 + 2.0L * n) * 1.2e-16L + 1e-290L;
		ld e[3] = {f[3 * n + i] - a.ax[i], f[4 * n + i] - a.ay[i], f[5 * n + i] - a.az[i]};
		ld w[3] = {a.ax[i], a.ay[i], a.az[i]};
		for(int k = 0; k != 3; ++k)
		{
			PBT_CHECK(fabsl(e[k]) <= tol, name << ": acceleration of body " << i << "/" << n << " axis " << k << " is " << f[(3 + k) * n + i]
					  << ", exact " << static_cast<double>(w[k]) << ", error " << static_cast<double>(e[k]) << " allowed " << static_cast<double>(tol));
		}
	}
}

static void p_exact(pbt::source& s, pbt::ctx& c)
{
	auto list = engines();
	auto ep = list[s.strat(list.size())];
	size_t n;
	if(cuda()) { n = gen_cuda(s, c, ep); }
	else if(ocl())
	{
	static const int blocks[] = {1, 2, 4, 8, 16, 32, 64};
	int bs = blocks[s.draw(6)];
	size_t maxk = std::max<size_t>(1, 128 / bs);
	n = bs * s.size(1, maxk);
	if(s.chance(1, 2)) { n = bs << s.draw(3); while(n > 128 && n > static_cast<size_t>(bs)) { n /= 2; } }
	ep["block_size"] = std::to_string(bs);
	c.label("block " + std::to_string(bs));
	// several (equal) devices share the bodies
	if(s.chance(1, 2)) { ep["device"] = gen_devices(s, c, n, bs); }
	}
	else
	{
	uint64_t big = s.draw(9);
	n = big >= 9 ? 64 * s.size(1, 4) + s.draw(3) : s.size(1, 200);
	if(s.chance(1, 300)) { n = s.chance(1, 5) ? 1500 + s.draw(s.chance(1, 3) ? 7500 : 3000) : 500 + s.draw(900); c.label("large count"); }
	omp_set_num_threads(1 + static_cast<int>(s.draw(3)));
	}
	static const double scales[] = {10, 1e-3, 1, 1e3, 1e6, 1e11, 1e18, 1e-6};
	double scale = scales[s.draw(7)];
	if(s.chance(1, 20)) { scale = s.chance(1, 2) ? 1e80 : 1e55; }
	double ms = s.chance(1, 3) ? s.positive(1e-12, 1e12) : 1;
	bodies b = gen_bodies(s, c, n, scale, true, 1e-2 * ms, 1e2 * ms);
	if(n > 1 && s.chance(1, 4))
	{
		// extremely close pair around the minimal distance
		size_t i = s.draw(n - 1), j = s.draw(n - 1);
		if(i != j)
		{
			double d = s.chance(1, 4) ? s.positive(1e-14, 1e-6) : s.positive(1e-7, 1e-2);
			if(s.chance(1, 2)) { d = -d; }
			if(s.chance(1, 4)) { b.r[i] = v3{0, 0, 0}; }
			b.r[j] = b.r[i];
			(&b.r[j].x)[s.draw(2)] += d;
			c.label("close pair");
		}
	}
	nbody_data d;
	b.fill(d);
	d.set_step(s.draw(5));
	d.set_time(s.number(10));
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(ep)));
	PBT_CHECK(e != nullptr, "engine " << ep["engine"] << " not created");
	PBT_CHECK(e->init(&d), "init failed");
	std::vector<double> y = b.y();
	std::vector<double> y0 = read_y(e.get(), e->get_y(), 6 * n);
	PBT_CHECK(same_bits(y, y0), ep["engine"] << ": engine state differs from the initial data");
	nbody_engine::memory* fm = e->create_buffer(sizeof(double) * e->problem_size());
	nbody_engine::memory* ym = e->create_buffer(sizeof(double) * e->problem_size());
	size_t rounds = 1 + s.draw(2);
	for(size_t k = 0; k != rounds; ++k)
	{
		nbody_engine::memory* in = e->get_y();
		if(k > 0)
		{
			// another state evaluated with the same engine
			bodies b2 = gen_bodies(s, c, n, scale);
			b2.m = b.m;
			y = b2.y();
			load_state(e.get(), ym, y, s.chance(1, 2));
			in = ym;
			if(s.chance(1, 2)) { e->set_step(s.draw(7)); }
			if(s.chance(1, 3)) { e->set_time(s.number(10)); }
		}
		e->fill_buffer(fm, 1e77);
		e->fcompute(s.number(100), in, fm);
		check_result(ep["engine"], y, b.m, read_y(e.get(), fm, 6 * n));
		PBT_CHECK(same_bits(y, read_y(e.get(), in, 6 * n)), ep["engine"] << ": fcompute changed the state");
		PBT_CHECK(same_bits(b.y(), read_y(e.get(), e->get_y(), 6 * n)), ep["engine"] << ": fcompute changed the engine state");
	}
	nbody_data out;
	b.fill(out);
	for(size_t i = 0; i != n; ++i) { out.get_vertites()[i] = nbvertex_t(9, 9, 9); out.get_velosites()[i] = nbvertex_t(9, 9, 9); }
	e->get_data(&out);
	for(size_t i = 0; i != n; ++i)
	{
		nbvertex_t r(out.get_vertites()[i]), v(out.get_velosites()[i]);
		PBT_CHECK(r.x == b.r[i].x && r.y == b.r[i].y && r.z == b.r[i].z && v.x == b.v[i].x && v.y == b.v[i].y && v.z == b.v[i].z,
				  ep["engine"] << ": get_data returns another state for body " << i);
	}
	e->free_buffer(fm);
	e->free_buffer(ym);
	c.label(ep["engine"]);
	if(n >= 2) { c.nontrivial(); }
	if(n % 64) { c.label("count not multiple of 64"); }
	if(c.verbose) { c.text << ep["engine"] << " rounds=" << rounds << " " << b.str(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	std::vector<pbt::prop> cpu{{"exact", p_exact, 40000, 2000000, 0, 30, false}};
	std::vector<pbt::prop> gpu{{"opencl_exact", p_exact, 500, 20000, 0, 120, false}};
	std::vector<pbt::prop> cu{{"cuda_exact", p_exact, 1500, 60000, 0, 120, false}};
	return pbt::runner(cuda() ? cu : ocl() ? gpu : cpu).main(argc, argv);
}
