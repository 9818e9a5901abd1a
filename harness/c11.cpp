// C11: momentum and mass centre; invariance under shifts, boosts, permutations, axis changes
#include "common.h"

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

static pmap gen_solver(pbt::source& s, bool any_error)
{
	static const char* const names[] = {"euler", "midpoint", "midpoint-st", "rk4", "trapeze", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc",
		"adams", "bs", "adams", "bs"};
	pmap p = {{"solver", names[s.strat(18)]}};
	p["refine_steps_count"] = std::to_string(1 + s.draw(2));
	p["correction"] = s.chance(1, 3) ? "true" : "false";
	p["substep_subdivisions"] = std::to_string(2 + s.draw(2));
	p["max_recursion"] = std::to_string(s.draw(2));
	p["min_step"] = "0";
	// without a threshold near the estimate the transformed run takes the same decisions
	p["error_threshold"] = any_error ? num(std::pow(10, -12 * s.unit())) : (s.chance(1, 2) ? "0" : "1e300");
	if(p["solver"] == "adams")
	{
		p["rank"] = std::to_string(1 + s.draw(4));
		static const char* const st[] = {"euler", "rk4", "midpoint-st", "rkdp", "trapeze", "bs"};
		p["starter_solver"] = st[s.draw(5)];
	}
	if(p["solver"] == "bs" || p["starter_solver"] == "bs") { p["max_level"] = std::to_string(3 + s.draw(3)); }
	return p;
}

static std::string show(const pmap& p)
{
	std::string o;
	for(auto& k : p) { o += k.first + "=" + k.second + " "; }
	return o;
}

struct run_t
{
	nbody_data						d;
	std::unique_ptr<nbody_engine>	e;
	std::unique_ptr<nbody_solver>	sv;
	run_t(const bodies& b, const std::string& en, const pmap& sp, double t0 = 0, size_t step0 = 0)
	{
		b.fill(d);
		d.set_time(t0);
		d.set_step(step0);
		e.reset(nbody_create_engine(params({{"engine", en}})));
		PBT_CHECK(e != nullptr && e->init(&d), "engine " << en);
		sv.reset(nbody_create_solver(params(sp)));
		PBT_CHECK(sv != nullptr, "solver");
		sv->set_engine(e.get());
	}
	bodies advance(const vec& dts, const std::vector<double>& m)
	{
		for(double h : dts) { sv->advise(h); }
		return now(m);
	}
	bodies now(const std::vector<double>& m)
	{
		size_t n = m.size();
		vec y = read_y(e.get(), e->get_y(), 6 * n);
		bodies o;
		o.m = m;
		for(size_t i = 0; i != n; ++i)
		{
			o.r.push_back({y[i], y[n + i], y[2 * n + i]});
			o.v.push_back({y[3 * n + i], y[4 * n + i], y[5 * n + i]});
		}
		return o;
	}
};

static vec gen_steps(pbt::source& s, double hmax)
{
	size_t k = 1 + s.draw(9);
	vec o(k);
	double h = s.positive(1e-3, hmax);
	bool vary = s.chance(1, 3);
	for(auto& v : o) { v = vary ? h * (0.25 + s.unit()) : h; }
	return o;
}

static const char* const ENG[] = {"simple", "openmp", "block"};

static void p_momentum(pbt::source& s, pbt::ctx& c)
{
	pmap sp = gen_solver(s, true);
	std::string en = ENG[s.draw(2)];
	size_t n = s.chance(1, 200) ? 60 + s.draw(250) : s.size(1, 24);
	bodies b = gen_bodies(s, c, n, 5, true, 0.05, 20);
	vec dts = gen_steps(s, 0.5);
	run_t r(b, en, sp);
	ld T = 0;
	ld P0[3] = {0, 0, 0}, C0[3] = {0, 0, 0}, M = 0;
	auto comp = [](const v3 & q, int k) { return k == 0 ? q.x : k == 1 ? q.y : q.z; };
	for(size_t i = 0; i != n; ++i)
	{
		M += b.m[i];
		for(int k = 0; k != 3; ++k) { P0[k] += static_cast<ld>(b.m[i]) * comp(b.v[i], k); C0[k] += static_cast<ld>(b.m[i]) * comp(b.r[i], k); }
	}
	ld mag = 0, magr = 0;
	auto acc = [&](const bodies & q)
	{
		for(size_t i = 0; i != n; ++i)
		{
			mag = std::max<ld>(mag, q.m[i] * (fabsl(q.v[i].x) + fabsl(q.v[i].y) + fabsl(q.v[i].z)));
			magr = std::max<ld>(magr, q.m[i] * (fabsl(q.r[i].x) + fabsl(q.r[i].y) + fabsl(q.r[i].z)));
		}
		accel a = reference_accel(q.y(), q.m);
		for(size_t i = 0; i != n; ++i) { mag = std::max<ld>(mag, q.m[i] * a.cond[i]); }
	};
	acc(b);
	size_t big = 0;
	for(size_t k = 0; k != dts.size(); ++k)
	{
		r.sv->advise(dts[k]);
		T += dts[k];
		bodies q = r.now(b.m);
		acc(q);
		if(!std::isfinite(static_cast<double>(mag)) || mag > 1e7) { c.label("violent encounter"); break; }
		ld P[3] = {0, 0, 0}, C[3] = {0, 0, 0};
		for(size_t i = 0; i != n; ++i)
		{
			for(int x = 0; x != 3; ++x) { P[x] += static_cast<ld>(q.m[i]) * comp(q.v[i], x); C[x] += static_cast<ld>(q.m[i]) * comp(q.r[i], x); }
		}
		// violent inner stages (not seen from outside) are covered by the generous factor
		ld tol = 1e-12L * (mag + magr + 1e-3L * M) * (n + 10) * (k + 1);
		for(int x = 0; x != 3; ++x)
		{
			PBT_CHECK(fabsl(P[x] - P0[x]) <= tol, show(sp) << en << " n=" << n << " after step " << k << " (" << static_cast<double>(dts[k]) << "): momentum[" << x << "] " << static_cast<double>(P0[x])
					  << " became " << static_cast<double>(P[x]) << " (allowed " << static_cast<double>(tol) << ")");
			PBT_CHECK(fabsl(C[x] - C0[x] - P0[x] * T) <= tol * (1 + T), show(sp) << en << " n=" << n << " after step " << k << " (" << static_cast<double>(dts[k]) << "): mass centre*M [" << x << "] is "
					  << static_cast<double>(C[x]) << ", uniform motion gives " << static_cast<double>(C0[x] + P0[x] * T));
		}
		++big;
	}
	c.label(sp["solver"]);
	if(n > 1 && big) { c.nontrivial(); }
	if(c.verbose) { c.text << show(sp) << en << " " << b.str(3) << " steps " << dts.size() << " of " << dts[0]; }
}

static void p_symmetry(pbt::source& s, pbt::ctx& c)
{
	pmap sp = gen_solver(s, false);
	std::string en = ENG[s.draw(2)];
	size_t n = s.size(1, 16);
	bodies b = gen_bodies(s, c, n, 5, false, 0.1, 3);
	// separate the bodies: strong encounters amplify rounding
	for(size_t i = 0; i != n; ++i) { b.r[i].x += 4.0 * static_cast<double>(i % 3); b.r[i].y += 4.0 * static_cast<double>((i / 3) % 3); b.r[i].z += 4.0 * static_cast<double>(i / 9); }
	for(size_t i = 0; i != n; ++i)
	{
		for(size_t j = 0; j != i; ++j)
		{
			if(std::fabs(b.r[i].x - b.r[j].x) + std::fabs(b.r[i].y - b.r[j].y) + std::fabs(b.r[i].z - b.r[j].z) < 0.3) { throw pbt::discard(); }
		}
	}
	vec dts = gen_steps(s, 0.1);
	double T = 0;
	for(double h : dts) { T += h; }
	// transformation: signed axis permutation, body permutation, shift, boost, time origin
	int ax[3] = {0, 1, 2};
	double sg[3] = {1, 1, 1};
	v3 sh{0, 0, 0}, bo{0, 0, 0};
	std::vector<size_t> perm(n);
	for(size_t i = 0; i != n; ++i) { perm[i] = i; }
	double t0 = 0;
	size_t step0 = 0;
	std::ostringstream tr;
	tr.precision(9);
	uint64_t what = 1 + s.draw(62);
	if(what & 1) { for(size_t i = n; i > 1; --i) { std::swap(perm[i - 1], perm[s.draw(i - 1)]); } tr << "bodies permuted "; c.label("permuted"); }
	if(what & 2) { for(int i = 3; i > 1; --i) { std::swap(ax[i - 1], ax[s.draw(i - 1)]); } tr << "axes " << ax[0] << ax[1] << ax[2] << " "; c.label("axes"); }
	if(what & 4) { for(auto& q : sg) { q = s.chance(1, 2) ? -1 : 1; } tr << "signs " << sg[0] << sg[1] << sg[2] << " "; c.label("mirror"); }
	if(what & 8) { sh = v3{s.number(20), s.number(20), s.number(20)}; tr << "shift " << sh.x << "," << sh.y << "," << sh.z << " "; c.label("shift"); }
	if(what & 16) { bo = v3{s.number(10), s.number(10), s.number(10)}; tr << "boost " << bo.x << "," << bo.y << "," << bo.z << " "; c.label("boost"); }
	if(what & 32) { t0 = s.number(100); step0 = s.draw(100); tr << "start at time " << t0 << " step " << step0; c.label("time origin"); }
	auto comp = [](const v3 & q, int k) { return k == 0 ? q.x : k == 1 ? q.y : q.z; };
	auto map1 = [&](const v3 & q) { return v3{sg[0] * comp(q, ax[0]), sg[1] * comp(q, ax[1]), sg[2] * comp(q, ax[2])}; };
	auto apply = [&](const bodies & q, double t)
	{
		bodies o;
		o.r.resize(n);
		o.v.resize(n);
		o.m.resize(n);
		for(size_t i = 0; i != n; ++i)
		{
			v3 r = map1(q.r[perm[i]]), v = map1(q.v[perm[i]]);
			o.r[i] = v3{r.x + sh.x + bo.x * t, r.y + sh.y + bo.y * t, r.z + sh.z + bo.z * t};
			o.v[i] = v3{v.x + bo.x, v.y + bo.y, v.z + bo.z};
			o.m[i] = q.m[perm[i]];
		}
		return o;
	};
	bodies tb = apply(b, 0);
	run_t r1(b, en, sp), r2(tb, en, sp, t0, step0);
	// sensitivity of the trajectory
	bodies e1 = r1.advance(dts, b.m), e2 = r2.advance(dts, tb.m), want = apply(e1, T);
	double amp = 0;
	for(int q = 0; q != 3; ++q)
	{
		const double pert = 1e-9;
		bodies pb = b;
		auto sgn = [&](size_t i, int x) { return (pbt::mix(i * 31 + q * 7 + x) & 1) ? pert : -pert; };
		for(size_t i = 0; i != n; ++i)
		{
			pb.r[i].x += sgn(i, 0);
			pb.r[i].y += sgn(i, 1);
			pb.r[i].z += sgn(i, 2);
			pb.v[i].x += sgn(i, 3);
			pb.v[i].y += sgn(i, 4);
			pb.v[i].z += sgn(i, 5);
		}
		run_t r3(pb, en, sp);
		bodies e3 = r3.advance(dts, b.m);
		for(size_t i = 0; i != n; ++i)
		{
			for(int x = 0; x != 3; ++x)
			{
				amp = std::max(amp, std::fabs(comp(e1.r[i], x) - comp(e3.r[i], x)) / pert);
				amp = std::max(amp, std::fabs(comp(e1.v[i], x) - comp(e3.v[i], x)) / pert);
			}
		}
	}
	if(!(amp < 100)) { throw pbt::discard(); }
	double scale = 10 + std::fabs(sh.x) + std::fabs(sh.y) + std::fabs(sh.z) + 20 + std::fabs(t0) * 0.1 + (std::fabs(bo.x) + std::fabs(bo.y) + std::fabs(bo.z)) * (1 + T);
	for(auto& q : want.r) { scale = std::max(scale, std::fabs(q.x) + std::fabs(q.y) + std::fabs(q.z)); }
	for(auto& q : want.v) { scale = std::max(scale, std::fabs(q.x) + std::fabs(q.y) + std::fabs(q.z)); }
	double tol = 1e-10 * scale * (10 + amp);
	for(size_t i = 0; i != n; ++i)
	{
		for(int x = 0; x != 3; ++x)
		{
			PBT_CHECK(std::fabs(comp(e2.r[i], x) - comp(want.r[i], x)) <= tol, show(sp) << en << " n=" << n << " " << dts.size() << " steps of " << dts[0] << " with " << tr.str() << ": position " << i << "[" << x << "] is "
					  << comp(e2.r[i], x) << ", transformed original " << comp(want.r[i], x) << " (allowed difference " << tol << ")");
			PBT_CHECK(std::fabs(comp(e2.v[i], x) - comp(want.v[i], x)) <= tol, show(sp) << en << " n=" << n << " " << dts.size() << " steps of " << dts[0] << " with " << tr.str() << ": velocity " << i << "[" << x << "] is "
					  << comp(e2.v[i], x) << ", transformed original " << comp(want.v[i], x) << " (allowed difference " << tol << ")");
		}
	}
	c.label(sp["solver"]);
	if(n > 1) { c.nontrivial(); }
	if(c.verbose) { c.text << show(sp) << en << " " << b.str(2) << " " << dts.size() << " steps of " << dts[0] << ": " << tr.str() << ", sensitivity " << amp; }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"momentum", p_momentum, 12000, 300000, 0, 60, false}, {"symmetry", p_symmetry, 12000, 300000, 0, 60, false}}).main(argc, argv);
}
