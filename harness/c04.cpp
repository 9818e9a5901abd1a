// C04: Ahmad-Cohen engine against a model that keeps the neighbour lists and the frozen far force
#include "common.h"

struct model
{
	size_t n;
	double maxd, minf;
	std::vector<std::vector<size_t>> near;
	std::vector<ld> fx, fy, fz, fc;		// frozen far acceleration, sum of absolute contributions
	bool valid;
	bool ambiguous;
};

static void pair_acc(const std::vector<double>& y, const std::vector<double>& m, size_t i, size_t j, ld& ax, ld& ay, ld& az, ld& d2o)
{
	size_t n = m.size();
	ld dx = static_cast<ld>(y[j]) - y[i], dy = static_cast<ld>(y[n + j]) - y[n + i], dz = static_cast<ld>(y[2 * n + j]) - y[2 * n + i];
	ld d2 = dx * dx + dy * dy + dz * dz;
	ld q = d2 < 1e-8L ? 1e-8L : d2;
	ld k = m[j] / (q * sqrtl(q));
	ax = k * dx;
	ay = k * dy;
	az = k * dz;
	d2o = d2;
}

static void p_ah(pbt::source& s, pbt::ctx& c)
{
	size_t n = s.chance(1, 250) ? 200 + s.draw(900) : s.chance(1, 10) ? 60 + s.draw(100) : s.size(1, 40);
	double scale = s.positive(0.5, 50);
	bodies b = gen_bodies(s, c, n, scale);
	size_t rate = s.chance(1, 6) ? 1000 : 1 + s.size(0, 12);
	double maxd = s.chance(1, 5) ? 0 : s.positive(scale * 0.01, scale * 4);
	double minf = s.chance(1, 5) ? 1e9 : s.positive(1e-5, 1e2);
	if(s.chance(1, 8)) { maxd = 10; minf = 1e-4; }
	std::map<std::string, std::string> p{{"engine", "ah"}, {"full_recompute_rate", std::to_string(rate)}, {"max_dist", num(maxd)}, {"min_force", num(minf)}};
	omp_set_num_threads(1 + static_cast<int>(s.draw(3)));
	nbody_data d;
	b.fill(d);
	size_t step = s.chance(1, 2) ? 0 : s.draw(30);
	if(s.chance(1, 20)) { step = (static_cast<size_t>(1) << (15 + s.draw(25))) - s.draw(3); }
	d.set_time(s.chance(1, 3) ? 0 : s.number(10));
	d.set_step(step);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(p)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	nbody_engine::memory* fm = e->create_buffer(sizeof(double) * e->problem_size());
	nbody_engine::memory* ym = e->create_buffer(sizeof(double) * e->problem_size());
	model md;
	md.valid = false;
	size_t ops = s.size(2, 12), sparse = 0, mixed = 0;
	std::ostringstream hist;
	for(size_t k = 0; k != ops; ++k)
	{
		if(k > 0)
		{
			switch(s.draw(4))
			{
			case 1:
			{
				bodies b2 = gen_bodies(s, c, n, scale);
				b2.m = b.m;
				b = b2;
				hist << "new ";
				break;
			}
			case 2:
				for(size_t i = 0; i != n; ++i) { b.r[i] = v3{b.r[i].x + b.v[i].x, b.r[i].y + b.v[i].y, b.r[i].z + b.v[i].z}; }
				hist << "drift ";
				break;
			case 3:
			{
				size_t i = s.draw(n - 1);
				b.r[i] = v3{s.number(scale), s.number(scale), s.number(scale)};
				hist << "move " << i << " ";
				break;
			}
			case 4:
				std::swap(b.r[s.draw(n - 1)], b.r[s.draw(n - 1)]);
				hist << "swap ";
				break;
			default:
				hist << "same ";
			}
			if(s.chance(3, 4))
			{
				step = s.chance(1, 4) ? s.draw(40) : step + 1;
				e->set_step(step);
				if(s.chance(1, 2)) { e->set_time(s.number(10)); }
			}
		}
		std::vector<double> y = b.y();
		bool own = s.chance(1, 2);
		nbody_engine::memory* in = own ? e->get_y() : ym;
		e->write_buffer(in, y.data());
		e->fill_buffer(fm, 1e77);
		bool full = !md.valid || step % rate == 0;
		hist << (full ? "F" : "S") << "@" << step << " ";
		std::vector<ld> wx(n), wy(n), wz(n), cond(n);
		if(full)
		{
			md.near.assign(n, std::vector<size_t>());
			md.fx.assign(n, 0);
			md.fy.assign(n, 0);
			md.fz.assign(n, 0);
			md.fc.assign(n, 0);
			md.valid = true;
		}
		else { ++sparse; }
		for(size_t i = 0; i != n; ++i)
		{
			ld ax, ay, az, d2;
			if(full)
			{
				for(size_t j = 0; j != n; ++j)
				{
					if(i == j) { continue; }
					pair_acc(y, b.m, i, j, ax, ay, az, d2);
					ld dist = sqrtl(d2), force = sqrtl(ax * ax + ay * ay + az * az) * b.m[i];
					if((maxd > 0 && fabsl(dist - maxd) < 1e-9L * maxd) || fabsl(force - minf) < 1e-9L * minf) { throw pbt::discard(); }
					if(dist < maxd || force > minf) { md.near[i].push_back(j); }
					else
					{
						md.fx[i] += ax;
						md.fy[i] += ay;
						md.fz[i] += az;
						md.fc[i] += sqrtl(ax * ax + ay * ay + az * az);
					}
					wx[i] += ax;
					wy[i] += ay;
					wz[i] += az;
					cond[i] += sqrtl(ax * ax + ay * ay + az * az);
				}
				if(!md.near[i].empty() && md.near[i].size() + 1 < n) { ++mixed; }
			}
			else
			{
				wx[i] = md.fx[i];
				wy[i] = md.fy[i];
				wz[i] = md.fz[i];
				cond[i] = md.fc[i];
				for(size_t j : md.near[i])
				{
					pair_acc(y, b.m, i, j, ax, ay, az, d2);
					wx[i] += ax;
					wy[i] += ay;
					wz[i] += az;
					cond[i] += sqrtl(ax * ax + ay * ay + az * az);
				}
			}
		}
		e->fcompute(s.number(3), in, fm);
		std::vector<double> f = read_y(e.get(), fm, 6 * n);
		for(size_t i = 0; i != n; ++i)
		{
			for(int q = 0; q != 3; ++q)
			{
				PBT_CHECK(f[q * n + i] == y[(3 + q) * n + i], "position derivative of body " << i << " axis " << q << " is " << f[q * n + i] << ", velocity "
						  << y[(3 + q) * n + i]);
			}
			ld tol = cond[i] * (30 + 2 * n) * 1.2e-16L + 1e-280L;
			ld ex = fabsl(f[3 * n + i] - wx[i]), ey = fabsl(f[4 * n + i] - wy[i]), ez = fabsl(f[5 * n + i] - wz[i]);
			PBT_CHECK(ex <= tol && ey <= tol && ez <= tol, (full ? "full" : "sparse") << " evaluation " << k << " at step " << step << " rate " << rate
					  << ": acceleration of body " << i << "/" << n << " is (" << f[3 * n + i] << "," << f[4 * n + i] << "," << f[5 * n + i] << "), expected ("
					  << static_cast<double>(wx[i]) << "," << static_cast<double>(wy[i]) << "," << static_cast<double>(wz[i]) << ") tolerance " << static_cast<double>(tol));
		}
		PBT_CHECK(same_bits(y, read_y(e.get(), in, 6 * n)), "fcompute changed the state");
	}
	e->free_buffer(fm);
	e->free_buffer(ym);
	if(sparse) { c.label("sparse evaluation"); }
	if(mixed) { c.label("near and far bodies"); }
	if(sparse && mixed) { c.nontrivial(); }
	if(c.verbose) { c.text << "rate=" << rate << " max_dist=" << maxd << " min_force=" << minf << " " << b.str(3) << " history " << hist.str(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"ah", p_ah, 60000, 3000000, 0, 30, false}}).main(argc, argv);
}
