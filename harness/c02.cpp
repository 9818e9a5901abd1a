// C02/C03: Barnes-Hut engines against the opening-criterion error bound
#include "common.h"

// Positions in which the bound is nearly attained: tight groups elongated along
// one direction, seen from far away along that direction.
static bodies gen_groups(pbt::source& s, pbt::ctx& c, size_t n, double ratio)
{
	bodies b;
	b.r.resize(n);
	b.v.resize(n);
	b.m.resize(n);
	v3 dir;
	switch(s.draw(4))
	{
	case 0: dir = v3{1, 0, 0}; break;
	case 1: dir = v3{0, 1, 0}; break;
	case 2: dir = v3{0, 0, 1}; break;
	default:
		dir = v3{s.number(1), s.number(1), s.number(1)};
		double l = std::sqrt(dir.x * dir.x + dir.y * dir.y + dir.z * dir.z);
		if(l < 1e-3) { dir = v3{0, 0.6, 0.8}; }
		else { dir = v3{dir.x / l, dir.y / l, dir.z / l}; }
	}
	double w = s.positive(0.05, 1);
	double pos = s.chance(1, 3) ? s.number(1000) : 0;
	size_t i = 0;
	double probe_mass = s.positive(1e-9, 1);
	while(i < n)
	{
		uint64_t k = 1 + s.draw(3);
		if(s.chance(1, 8)) { k = 1 + s.draw(15); }
		double spread = s.chance(1, 4) ? 0.3 : 0.0;
		for(uint64_t q = 0; q < k && i < n; ++q, ++i)
		{
			double t = pos + (k == 1 ? 0 : (q & 1 ? w : -w) * (k <= 2 ? 1 : (2 * s.unit() - 1)));
			b.r[i] = v3{dir.x * t + spread * w * (2 * s.unit() - 1), dir.y * t + spread * w * (2 * s.unit() - 1), dir.z * t + spread * w * (2 * s.unit() - 1)};
			b.m[i] = k == 1 ? probe_mass : (s.chance(1, 4) ? s.positive(1e-2, 10) : 1.0);
			b.v[i] = v3{s.number(1), s.number(1), s.number(1)};
		}
		pos += w * std::min(ratio, 3000.0) * s.positive(0.3, 3) + 3 * w;
	}
	c.label("geometry aligned groups");
	return b;
}

static bodies gen_bh(pbt::source& s, pbt::ctx& c, size_t n, double ratio)
{
	bodies b;
	if(s.chance(1, 2))
	{
		b = gen_groups(s, c, n, ratio);
	}
	else
	{
		static const double scales[] = {10, 1, 100, 1000};
		b = gen_bodies(s, c, n, scales[s.draw(3)]);
	}
	return b;
}

// distances are zero or large enough to stay clear of the softened zone
static void separate(bodies& b)
{
	if(min_dist(b) < 1e-3) { throw pbt::discard(); }
}

static ld bound_k(ld ratio)
{
	ld x = 1 / ratio;
	return (1 + x) * (1 + x) * (3 * x * x - 2 * x * x * x) / ((1 - x) * (1 - x));
}

static void check_bound(const std::string& name, const std::vector<double>& y, const std::vector<double>& m, const std::vector<double>& f,
						double ratio, pbt::ctx& c)
{
	size_t n = m.size();
	accel a = reference_accel(y, m);
	ld kx = bound_k(ratio);
	ld pmax = 0;
	for(size_t i = 0; i != 3 * n; ++i) { pmax = std::max<ld>(pmax, std::fabs(y[i])); }
	bool approx = false;
	for(size_t i = 0; i != n; ++i)
	{
		for(int k = 0; k != 3; ++k)
		{
			PBT_CHECK(f[k * n + i] == y[(3 + k) * n + i], name << ": position derivative of body " << i << "/" << n << " axis " << k << " is "
					  << f[k * n + i] << ", velocity is " << y[(3 + k) * n + i]);
		}
		if(!judged(i, n)) { continue; }
		ld rnd = 0;
		for(size_t j = 0; j != n; ++j)
		{
			if(i == j) { continue; }
			ld dx = static_cast<ld>(y[j]) - y[i], dy = static_cast<ld>(y[n + j]) - y[n + i], dz = static_cast<ld>(y[2 * n + j]) - y[2 * n + i];
			ld d2 = dx * dx + dy * dy + dz * dz;
			if(d2 == 0) { d2 = 1e-8L; }
			rnd += m[j] / d2 * 3e-16L * (n + 50) * (1 + 4 * pmax / sqrtl(d2));
		}
		ld e[3] = {f[3 * n + i] - a.ax[i], f[4 * n + i] - a.ay[i], f[5 * n + i] - a.az[i]};
		ld err = sqrtl(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
		if(err > 4 * rnd) { approx = true; }
		ld tol = kx * a.s2[i] * 1.000001L + rnd;
		PBT_CHECK(err <= tol, name << ": acceleration of body " << i << "/" << n << " is (" << f[3 * n + i] << "," << f[4 * n + i] << "," << f[5 * n + i]
				  << "), exact (" << static_cast<double>(a.ax[i]) << "," << static_cast<double>(a.ay[i]) << "," << static_cast<double>(a.az[i])
				  << "), error " << static_cast<double>(err) << ", bound " << static_cast<double>(tol) << " for ratio " << ratio);
	}
	if(approx) { c.label("node approximation used"); }
}

struct cfg
{
	std::map<std::string, std::string>	p;
	size_t	n;
	double	ratio;
	std::string name;
};

static cfg gen_cfg(pbt::source& s, pbt::ctx& c)
{
	cfg g;
	static const char* const layouts[] = {"tree", "heap", "heap_stackless"};
	static const char* const trav[] = {"cycle", "nested_tree"};
	uint64_t which = s.strat(6);
	g.p["tree_layout"] = ocl() ? layouts[1 + which % 2] : layouts[which % 3];
	g.p["traverse_type"] = trav[(which / (ocl() ? 2 : 3)) % 2];
	g.p["engine"] = ocl() ? "opencl_bh" : "simple_bh";
	switch(s.draw(3))
	{
	case 0: g.ratio = 10; break;
	case 1: g.ratio = s.positive(1.2, 5); break;
	case 2: g.ratio = s.positive(5, 2000); break;
	default: g.ratio = 1e12; c.label("exact limit");
	}
	g.p["distance_to_node_radius_ratio"] = num(g.ratio);
	if(cuda())
	{
		g.n = gen_cuda(s, c, g.p);
		g.p.erase("traverse_type");
		g.p["engine"] = which < 2 ? "cuda_bh" : "cuda_bh_tex";
		if(which < 2) { g.p.erase("tree_layout"); }
		else { g.p["tree_layout"] = layouts[1 + which % 2]; }
	}
	else if(ocl())
	{
		static const int blocks[] = {1, 2, 4, 8, 16, 32, 64};
		int bs = blocks[s.draw(6)];
		g.n = bs * s.size(1, std::max<size_t>(1, 128 / bs));
		if(s.chance(1, 2)) { g.n = bs << s.draw(3); while(g.n > 128 && g.n > static_cast<size_t>(bs)) { g.n /= 2; } }
		g.p["block_size"] = std::to_string(bs);
		if(s.chance(1, 2)) { g.p["device"] = gen_devices(s, c, g.n, bs); }
	}
	else
	{
		switch(s.draw(11))
		{
		case 10: g.n = static_cast<size_t>(1) << s.draw(7); break;
		case 11: g.n = 64 + s.draw(250); break;
		default: g.n = s.size(1, 80);
		}
		if(s.chance(1, 500)) { g.n = 300 + s.draw(s.chance(1, 4) ? 6000 : 2200); c.label("large count"); }
		omp_set_num_threads(1 + static_cast<int>(s.draw(3)));
	}
	if(g.n & (g.n - 1)) { c.label("count not power of two"); }
	g.name = g.p["engine"] + "/" + g.p["tree_layout"] + "/" + g.p["traverse_type"];
	c.label(g.name);
	return g;
}

static void eval_and_check(nbody_engine* e, nbody_engine::memory* ym, nbody_engine::memory* fm, const bodies& b, const cfg& g, double t,
						   bool own, pbt::ctx& c, const std::string& tag, bool computed, double when)
{
	std::vector<double> y = b.y();
	nbody_engine::memory* in = own ? e->get_y() : ym;
	load_state(e, in, y, computed);
	e->set_time(when);
	e->fill_buffer(fm, 1e77);
	e->fcompute(t, in, fm);
	check_bound(g.name + tag, y, b.m, read_y(e, fm, 6 * g.n), g.ratio, c);
	PBT_CHECK(same_bits(y, read_y(e, in, 6 * g.n)), g.name << ": fcompute changed the state");
}

static void p_bh(pbt::source& s, pbt::ctx& c)
{
	cfg g = gen_cfg(s, c);
	bodies b = gen_bh(s, c, g.n, g.ratio);
	separate(b);
	nbody_data d;
	b.fill(d);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(g.p)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	nbody_engine::memory* fm = e->create_buffer(sizeof(double) * e->problem_size());
	nbody_engine::memory* ym = e->create_buffer(sizeof(double) * e->problem_size());
	size_t rounds = 1 + s.draw(1);
	for(size_t k = 0; k != rounds; ++k)
	{
		bodies b2 = b;
		if(k > 0)
		{
			b2 = gen_bh(s, c, g.n, g.ratio);
			b2.m = b.m;
			separate(b2);
			if(s.chance(1, 2)) { e->set_step(s.draw(5)); }
		}
		eval_and_check(e.get(), ym, fm, b2, g, s.number(5), k == 0, c, "", s.chance(1, 2), s.chance(1, 3) ? 0 : s.number(10));
	}
	e->free_buffer(fm);
	e->free_buffer(ym);
	if(g.n >= 3) { c.nontrivial(); }
	if(c.verbose) { c.text << g.name << " ratio=" << g.ratio << " rounds=" << rounds << " " << b.str(); }
}

// histories with a tree that is rebuilt only every k-th step
static void p_refresh(pbt::source& s, pbt::ctx& c)
{
	cfg g = gen_cfg(s, c);
	size_t rate = 1 + s.size(0, 20);
	if(s.chance(1, 12)) { rate = 0; }
	g.p["tree_build_rate"] = std::to_string(rate);
	bodies b = gen_bh(s, c, g.n, g.ratio);
	separate(b);
	nbody_data d;
	b.fill(d);
	size_t step = s.chance(1, 3) ? s.draw(30) : 0;
	if(s.chance(1, 20)) { step = (static_cast<size_t>(1) << (15 + s.draw(25))) - s.draw(3); }
	if(s.chance(1, 20)) { rate = s.chance(1, 2) ? 200 + s.draw(4000) : static_cast<size_t>(1) << (31 + s.draw(4)); g.p["tree_build_rate"] = std::to_string(rate); }
	d.set_step(step);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(g.p)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	nbody_engine::memory* fm = e->create_buffer(sizeof(double) * e->problem_size());
	nbody_engine::memory* ym = e->create_buffer(sizeof(double) * e->problem_size());
	size_t ops = s.size(2, ocl() ? 5 : 9);
	std::ostringstream hist;
	size_t refreshed = 0;
	for(size_t k = 0; k != ops; ++k)
	{
		uint64_t op = k == 0 ? 0 : s.draw(7);
		bodies b2 = b;
		switch(op)
		{
		case 1:		// unrelated new positions
		{
			b2 = gen_bh(s, c, g.n, g.ratio);
			b2.m = b.m;
			hist << "new ";
			break;
		}
		case 2:		// scaling, possibly towards a point
		{
			double q = s.positive(1e-2, 1e2);
			for(auto& r : b2.r) { r = v3{r.x * q, r.y * q, r.z * q}; }
			hist << "scale " << q << " ";
			break;
		}
		case 3:		// swap positions
		{
			size_t cnt = 1 + s.draw(3);
			for(size_t q = 0; q != cnt; ++q) { std::swap(b2.r[s.draw(g.n - 1)], b2.r[s.draw(g.n - 1)]); }
			hist << "swap ";
			break;
		}
		case 4:		// one body runs away
		{
			size_t i = s.draw(g.n - 1);
			(&b2.r[i].x)[s.draw(2)] += s.number(1000);
			hist << "fly " << i << " ";
			break;
		}
		case 5:		// mirror
			for(auto& r : b2.r) { r = v3{-r.x, r.z, r.y}; }
			hist << "mirror ";
			break;
		case 6:		// drift
			for(size_t i = 0; i != g.n; ++i) { b2.r[i] = v3{b2.r[i].x + b2.v[i].x, b2.r[i].y + b2.v[i].y, b2.r[i].z + b2.v[i].z}; }
			hist << "drift ";
			break;
		case 7:		// collapse a few onto one
		{
			size_t src = s.draw(g.n - 1), cnt = 1 + s.draw(3);
			for(size_t q = 0; q != cnt; ++q) { b2.r[s.draw(g.n - 1)] = b2.r[src]; }
			hist << "collapse ";
			break;
		}
		default:
			hist << "same ";
		}
		if(min_dist(b2) < 1e-3) { b2 = b; hist << "(rejected) "; }
		b = b2;
		if(k > 0 && s.chance(2, 3))
		{
			step = s.chance(1, 5) ? s.draw(40) : step + 1;
			e->set_step(step);
		}
		hist << "@" << step << " ";
		if(k > 0 && rate != 0 && step % rate != 0) { ++refreshed; }
		eval_and_check(e.get(), ym, fm, b, g, s.number(5), s.chance(1, 2), c, "", s.chance(1, 2), s.chance(1, 3) ? 0 : s.number(10));
	}
	e->free_buffer(fm);
	e->free_buffer(ym);
	if(refreshed > 0)
	{
		c.label("refreshed tree");
		if(g.n >= 3) { c.nontrivial(); }
	}
	if(c.verbose) { c.text << g.name << " ratio=" << g.ratio << " rate=" << rate << " " << b.str(3) << " history " << hist.str(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	std::vector<pbt::prop> cpu{{"bh", p_bh, 60000, 2000000, 0, 30, false}, {"refresh", p_refresh, 30000, 1000000, 0, 30, false}};
	std::vector<pbt::prop> gpu{{"bh", p_bh, 500, 12000, 0, 120, false}, {"refresh", p_refresh, 350, 8000, 0, 120, false}};
	std::vector<pbt::prop> cu{{"bh", p_bh, 2000, 60000, 0, 120, false}, {"refresh", p_refresh, 1000, 30000, 0, 120, false}};
	return pbt::runner(cuda() ? cu : ocl() ? gpu : cpu).main(argc, argv);
}
