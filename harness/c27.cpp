// C27 (and C08 in quadruple precision): the library built with another coordinate type
// (NB_COORD_PRECISION 1: float, 4: __float128)
#include "pbt.h"
#include <QtCore/QtCore>
#include <QVariantMap>
#include <quadmath.h>
#include <memory>
#include <functional>
#include "nbody_engines.h"
#include "nbody_solvers.h"
#include "nbody_data_stream.h"
#include "nbody_data_stream_reader.h"
#include "nbody_extrapolator.h"

typedef nbcoord_t real;
typedef __float128 quad;
typedef std::vector<real> vec;
typedef std::map<std::string, std::string> pmap;

static const bool is_quad = sizeof(real) == 16;
static const quad EPS = is_quad ? 1.92592994438723585305597794258492732e-34Q : 1.1920928955078125e-7Q;

static void clean_dir(const std::string& p)
{
	if(p.size() < 6) { abort(); }
	QDir d(QString::fromStdString(p));
	d.removeRecursively();
	QDir().mkpath(QString::fromStdString(p));
}

static double D(quad x) { return static_cast<double>(x); }
static quad qabs(quad x) { return x < 0 ? -x : x; }
static quad qmax(quad a, quad b) { return a < b ? b : a; }

static std::string S(quad x)
{
	char buf[80];
	quadmath_snprintf(buf, sizeof(buf), "%.36Qg", x);
	return buf;
}

static QVariantMap params(const pmap& p)
{
	QVariantMap m;
	for(auto& i : p) { m[QString::fromStdString(i.first)] = QString::fromStdString(i.second); }
	return m;
}

// a number with all bits of the type in use
static real rnd(pbt::source& s, double range)
{
	quad v = static_cast<quad>(s.number(range));
	if(s.chance(3, 4)) { v += static_cast<quad>(range) * 1e-15Q * static_cast<quad>(s.unit()) + static_cast<quad>(range) * 1e-29Q * static_cast<quad>(s.unit()); }
	return static_cast<real>(v);
}

static vec read_y(nbody_engine* e, const nbody_engine::memory* m, size_t n)
{
	vec y(std::max(n, m->size() / sizeof(real)));
	e->read_buffer(y.data(), m);
	y.resize(n);
	return y;
}

struct ode : public nbody_engine_simple
{
	std::function<void(quad, const quad*, quad*)> rhs;
	void fcompute(const nbcoord_t& t, const memory* y, memory* f) override
	{
		size_t n = problem_size();
		vec a(read_y(this, y, n)), b(f->size() / sizeof(real), 0);
		std::vector<quad> p(a.begin(), a.end()), q(n);
		advise_compute_count();
		rhs(t, p.data(), q.data());
		for(size_t i = 0; i != n; ++i) { b[i] = static_cast<real>(q[i]); }
		write_buffer(f, b.data());
	}
};

struct method { const char* name; int order; pmap p; };
static std::vector<method> methods()
{
	std::vector<method> m;
	for(int r = 1; r <= 5; ++r)
	{
		m.push_back({"adams", r, {{"solver", "adams"}, {"rank", std::to_string(r)}, {"starter_solver", "rkfeagin10"}}});
		m.push_back({"adams+corr", r, {{"solver", "adams"}, {"rank", std::to_string(r)}, {"starter_solver", "rkfeagin10"}, {"correction", "true"}}});
	}
	for(int l = 3; l <= 8; ++l) { m.push_back({"bs", 2 * l, {{"solver", "bs"}, {"max_level", std::to_string(l)}, {"error_threshold", "0"}}}); }
	m.push_back({"euler", 1, {{"solver", "euler"}}});
	m.push_back({"midpoint", 2, {{"solver", "midpoint"}}});
	m.push_back({"midpoint-st", 2, {{"solver", "midpoint-st"}}});
	m.push_back({"rk4", 4, {{"solver", "rk4"}}});
	static const struct { const char* n; int p; } rk[] = {{"rkck", 4}, {"rkdp", 4}, {"rkdverk", 5}, {"rkf", 7}, {"rkfeagin10", 10}, {"rkfeagin12", 12}, {"rkfeagin14", 14}};
	for(auto& k : rk)
	{
		m.push_back({k.n, k.p, {{"solver", k.n}, {"max_recursion", "0"}}});
		m.push_back({k.n, k.p, {{"solver", k.n}, {"max_recursion", "0"}, {"correction", "true"}}});
	}
	m.push_back({"rkgl", 2, {{"solver", "rkgl"}, {"max_recursion", "0"}, {"refine_steps_count", "60"}}});
	m.push_back({"rklc", 2, {{"solver", "rklc"}, {"max_recursion", "0"}, {"refine_steps_count", "60"}}});
	m.push_back({"trapeze", 2, {{"solver", "trapeze"}, {"refine_steps_count", "1"}}});
	m.push_back({"trapeze", 2, {{"solver", "trapeze"}, {"refine_steps_count", "8"}}});
	return m;
}

static std::vector<quad> integrate(const pmap& sp, const std::function<void(quad, const quad*, quad*)>& rhs, const std::vector<quad>& y0, quad t0, quad T, size_t steps)
{
	nbody_data d;
	d.add_body(nbvertex_t(1, 2, 3), nbvertex_t(4, 5, 6), 1, nbcolor_t(1, 1, 1, 1));
	ode e;
	e.init(&d);
	e.rhs = rhs;
	vec w(e.get_y()->size() / sizeof(real), 0);
	for(size_t i = 0; i != 6; ++i) { w[i] = static_cast<real>(y0[i]); }
	e.write_buffer(e.get_y(), w.data());
	e.set_time(static_cast<real>(t0));
	std::unique_ptr<nbody_solver> s(nbody_create_solver(params(sp)));
	PBT_CHECK(s != nullptr, "solver not created");
	s->set_engine(&e);
	real dt = static_cast<real>(T / steps);
	for(size_t k = 0; k != steps; ++k) { s->advise(dt); }
	vec y(read_y(&e, e.get_y(), 6));
	return std::vector<quad>(y.begin(), y.end());
}

// order of convergence measured far below the rounding of double
static void p_order(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<method> ms = methods();
	const method& m = ms[s.strat(ms.size())];
	double amp = s.chance(1, 5) ? 0 : 0.2 + 0.6 * s.unit(), fr = 0.6 + s.unit(), ph = 6 * s.unit();
	double t0 = s.chance(1, 3) ? 0 : s.number(3);
	double om = 0.8 + 1.2 * s.unit(), ph2 = 6 * s.unit(), ex = 0.4 + 0.4 * s.unit();
	double lam = (s.chance(1, 2) ? 1 : -1) * (0.4 + 0.8 * s.unit());
	double q0 = 0.3 + s.unit(), lg = 0.5 + s.unit();
	auto w = [ = ](quad t) { return t + amp / static_cast<quad>(fr) * sinq(fr * t + ph); };
	auto dw = [ = ](quad t) { return 1 + amp * cosq(fr * t + ph); };
	quad w0 = w(t0);
	auto exact = [ = ](quad t)
	{
		quad u = w(t) - w0;
		std::vector<quad> y(6);
		y[0] = expq(ex * sinq(om * u + ph2));
		y[1] = expq(ex * cosq(om * u + ph2));
		y[2] = expq(lam * u);
		y[3] = 1 / (1 / static_cast<quad>(q0) + lg * u * (1 + u / 4));
		y[4] = 1 / (1 + expq(-lg * u) * (1 / 0.3Q - 1));
		y[5] = sinq(om * u) + u / 2;
		return y;
	};
	auto rhs = [ = ](quad t, const quad * y, quad * f)
	{
		quad u = w(t) - w0, g = dw(t);
		f[0] = g * om * y[0] * logq(y[1]);
		f[1] = -g * om * y[1] * logq(y[0]);
		f[2] = g * lam * y[2];
		f[3] = -g * lg * (1 + u / 2) * y[3] * y[3];
		f[4] = g * lg * y[4] * (1 - y[4]);
		f[5] = g * (om * cosq(om * u) + 0.5Q);
	};
	quad T = s.chance(1, 4) ? 0.5 + 0.25 * s.unit() : s.positive(1e-3, 0.5);
	size_t n0 = m.order <= 2 ? 24 : m.order <= 5 ? 16 : m.order <= 8 ? 8 : m.order <= 12 ? 4 : 3;
	if(m.p.at("solver") == "adams") { n0 = 32; }
	std::vector<quad> err, want = exact(t0 + T);
	size_t worst = 0;
	for(size_t k = 0; k != 4; ++k)
	{
		std::vector<quad> y = integrate(m.p, rhs, exact(t0), t0, T, n0 << k);
		quad e = 0;
		for(size_t i = 0; i != 6; ++i) { quad q = qabs(y[i] - want[i]) / qmax(1, qabs(want[i])); if(!(q <= e)) { e = q; worst = i; } }
		err.push_back(e);
	}
	double best = -100;
	std::ostringstream es;
	for(quad e : err) { es << D(e) << " "; }
	for(size_t k = 1; k + 1 < err.size(); ++k) { best = std::max(best, std::log2(D(err[k] / err[k + 1]))); }
	bool floor_hit = D(*std::min_element(err.begin(), err.end())) <= 1e-31;
	PBT_CHECK(floor_hit || best >= m.order - 0.5, m.name << " (order " << m.order << "), quadruple precision: global errors for " << n0 << "*2^k steps over " << D(T) << ": " << es.str()
			  << "- observed order " << best << ", component " << worst << ", time modulation " << amp);
	c.label(std::string(m.name) + " order " + std::to_string(m.order));
	c.nontrivial();
	c.text << m.name << " t0=" << t0 << " errors " << es.str() << (floor_hit ? "(floor)" : "") << " order " << best;
	if(getenv("C27_SHOW")) { fprintf(stderr, "SHOW %s %d: %s best %g\n", m.name, m.order, es.str().c_str(), best); }
}

static void p_poly(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<method> ms = methods();
	const method& m = ms[s.strat(ms.size())];
	quad t0 = s.chance(1, 3) ? 0 : s.number(1);
	size_t steps = 1 + s.draw(4);
	quad h = s.chance(1, 3) ? 0.25 : s.positive(0.02, 0.4);
	pmap sp = m.p;
	int deg = m.order - 1;
	if(sp["solver"] == "adams") { steps += 6; }
	quad T = h * steps;
	std::vector<quad> co(6), y0(6);
	std::vector<int> dg(6);
	for(size_t i = 0; i != 6; ++i)
	{
		co[i] = s.number(2);
		dg[i] = i == 0 ? deg : static_cast<int>(s.draw(deg));
		y0[i] = s.number(1);
	}
	if(co[0] == 0) { co[0] = 1; }
	auto rhs = [ = ](quad t, const quad*, quad * f) { for(size_t i = 0; i != 6; ++i) { f[i] = co[i] * powq(t - t0, dg[i]); } };
	std::vector<quad> y = integrate(sp, rhs, y0, t0, T, steps);
	for(size_t i = 0; i != 6; ++i)
	{
		quad want = y0[i] + co[i] * powq(T, dg[i] + 1) / (dg[i] + 1);
		quad mag = qabs(y0[i]) + qabs(co[i]) * powq(qmax(T, 1), dg[i] + 1) * 20;
		quad tol = 100 * EPS * mag * static_cast<quad>(20 + steps);
		PBT_CHECK(qabs(y[i] - want) <= tol, m.name << " (order " << m.order << ", " << steps << " steps of " << D(h) << " from " << D(t0) << "): integral of " << D(co[i]) << "*t^"
				  << dg[i] << " is " << S(y[i]) << ", exact " << S(want) << ", allowed deviation " << D(tol));
	}
	c.label(m.name);
	c.nontrivial();
	c.text << m.name << " degree " << deg << " t0=" << D(t0) << " steps=" << steps << " h=" << D(h);
}

// bodies of the precision under test
static void gen_bodies(pbt::source& s, pbt::ctx& c, size_t n, nbody_data& d)
{
	double range = s.chance(1, 2) ? 1 : s.positive(1e-2, 1e3);
	for(size_t i = 0; i != n; ++i)
	{
		nbvertex_t r(rnd(s, range), rnd(s, range), rnd(s, range)), v(rnd(s, 1), rnd(s, 1), rnd(s, 1));
		if(i != 0 && s.chance(1, 12)) { r = d.get_vertites()[s.draw(i - 1)]; c.label("coincident"); }
		else if(i != 0 && s.chance(1, 12))
		{
			r = d.get_vertites()[s.draw(i - 1)];
			r.x += static_cast<real>(1e-5 * s.unit());
			c.label("close");
		}
		real m = static_cast<real>(s.positive(1e-3, 1e3) * (1 + 1e-15Q * s.unit() + 1e-29Q * s.unit()));
		d.add_body(r, v, m, nbcolor_t(1, 0, 1, 1));
	}
}

static void p_accel(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<std::string> en{"simple", "openmp", "block", "ah", "simple_bh"};
	pmap p{{"engine", en[s.strat(en.size())]}};
	if(p["engine"] == "ah") { p["full_recompute_rate"] = "1"; p["max_dist"] = "1"; p["min_force"] = "1"; }
	if(p["engine"] == "simple_bh")
	{
		static const std::vector<std::string> tl{"tree", "heap", "heap_stackless"}, tt{"cycle", "nested_tree"};
		p["tree_layout"] = s.pick(tl);
		p["traverse_type"] = s.pick(tt);
		p["distance_to_node_radius_ratio"] = is_quad ? "1e18" : "1e9";
	}
	size_t n = p["engine"] == "block" ? 64 * (1 + s.draw(1)) : s.size(1, 61);
	nbody_data d;
	gen_bodies(s, c, n, d);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(p)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	nbody_engine::memory* f = e->create_buffer(e->get_y()->size());
	size_t rounds = 1 + s.draw(1);
	for(size_t k = 0; k != rounds; ++k) { e->fcompute(0, e->get_y(), f); }
	vec a(read_y(e.get(), f, 6 * n)), y(read_y(e.get(), e->get_y(), 6 * n));
	e->free_buffer(f);
	quad maxr = 0;
	for(size_t i = 0; i != 3 * n; ++i) { maxr = qmax(maxr, qabs(y[i])); }
	bool bh = p["engine"] == "simple_bh";
	for(size_t i = 0; i != n; ++i)
	{
		quad g[3] = {0, 0, 0}, mag[3] = {0, 0, 0};
		for(size_t j = 0; j != n; ++j)
		{
			if(i == j) { continue; }
			quad dx[3], r2 = 0;
			for(int q = 0; q != 3; ++q) { dx[q] = static_cast<quad>(y[q * n + j]) - static_cast<quad>(y[q * n + i]); r2 += dx[q] * dx[q]; }
			// the softening constant is known to the compiler's extended precision
			bool soft = r2 < 1e-8Q;
			r2 = qmax(r2, 1e-8Q);
			for(int q = 0; q != 3; ++q) { quad t = static_cast<quad>(d.get_mass()[j]) * dx[q] / (r2 * sqrtq(r2)); g[q] += t; mag[q] += qabs(t) * (soft && is_quad ? 1 + 1e-18Q / EPS / 40 : 1); }
			// bodies of one place are one node of the tree, its centre is rounded
			if(bh) { quad t = static_cast<quad>(d.get_mass()[j]) / r2 * (1 + 4 * maxr / sqrtq(r2)); for(int q = 0; q != 3; ++q) { mag[q] += t; } }
		}
		for(int q = 0; q != 3; ++q)
		{
			PBT_CHECK(a[q * n + i] == y[(3 + q) * n + i], p["engine"] << ": position derivative of body " << i << " is not its velocity");
			quad tol = EPS * static_cast<quad>(40 + 4 * n) * mag[q];
			PBT_CHECK(qabs(static_cast<quad>(a[(3 + q) * n + i]) - g[q]) <= tol, p["engine"] << " " << p["tree_layout"] << " " << p["traverse_type"] << ": acceleration of body " << i << "/" << n << " axis " << q << " is "
					  << S(a[(3 + q) * n + i]) << ", exact " << S(g[q]) << ", allowed deviation " << D(tol));
		}
	}
	c.label(p["engine"]);
	if(n > 2) { c.nontrivial(); }
	c.text << p["engine"] << " n=" << n;
}

// vector operations and compensated accumulation
static void p_ops(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<std::string> en{"simple", "openmp", "block"};
	std::string name = en[s.strat(3)];
	size_t n = 64;
	nbody_data d;
	for(size_t i = 0; i != n; ++i) { d.add_body(nbvertex_t(static_cast<real>(i), 1, 2), nbvertex_t(0, 0, 0), 1, nbcolor_t(1, 1, 1, 1)); }
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", name}})));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	size_t ps = e->problem_size(), k = 1 + s.draw(4);
	nbody_engine::memory_array b(e->create_buffers(sizeof(real) * ps, k));
	nbody_engine::memory* a(e->create_buffer(sizeof(real) * ps));
	nbody_engine::memory* r(e->create_buffer(sizeof(real) * ps));
	nbody_engine::memory* corr(e->create_buffer(sizeof(real) * ps));
	vec va(ps), co(k);
	std::vector<vec> vb(k, vec(ps));
	for(auto& v : va) { v = s.chance(1, 8) ? rnd(s, 100) : static_cast<real>(1) / 3; }
	for(size_t i = 0; i != k; ++i)
	{
		co[i] = s.chance(1, 6) ? 0 : rnd(s, 3);
		for(auto& v : vb[i]) { v = s.chance(1, 16) ? rnd(s, 10) : static_cast<real>(1) / 7; }
		e->write_buffer(b[i], vb[i].data());
	}
	e->write_buffer(a, va.data());
	e->fmaddn(r, a, b, co.data(), k);
	vec vr(read_y(e.get(), r, ps));
	real mx = 0;
	e->fmaxabs(r, mx);
	quad wmx = 0;
	for(size_t i = 0; i != ps; ++i)
	{
		quad w = va[i], mag = qabs(w);
		for(size_t j = 0; j != k; ++j) { w += static_cast<quad>(co[j]) * vb[j][i]; mag += qabs(static_cast<quad>(co[j]) * vb[j][i]); }
		PBT_CHECK(qabs(vr[i] - w) <= static_cast<quad>(2 * k + 2) * EPS * mag, name << ": n-term sum element " << i << " is " << S(vr[i]) << " instead of " << S(w));
		wmx = qmax(wmx, qabs(vr[i]));
	}
	PBT_CHECK(static_cast<quad>(mx) == wmx, name << ": maximum " << S(mx) << " instead of " << S(wmx));
	// many small increments
	size_t steps = 500 + s.draw(500);
	quad inc = EPS * (0.05 + 0.4 * s.unit());
	e->fill_buffer(a, 1);
	e->fill_buffer(corr, 0);
	e->fill_buffer(b[0], static_cast<real>(inc));
	real one = 1;
	for(size_t i = 0; i != steps; ++i) { e->fmaddn_corr(a, corr, b, &one, 1); }
	vr = read_y(e.get(), a, ps);
	for(size_t i = 0; i != ps; ++i)
	{
		quad w = 1 + inc * static_cast<quad>(steps);
		PBT_CHECK(qabs(vr[i] - w) <= 4 * EPS * w, name << ": " << steps << " compensated increments of " << D(inc) << " give 1+" << D(vr[i] - 1) << " instead of 1+" << D(w - 1));
	}
	for(auto* p : b) { e->free_buffer(p); }
	e->free_buffer(a);
	e->free_buffer(r);
	e->free_buffer(corr);
	c.label(name);
	c.nontrivial();
	c.text << name << " terms " << k << " updates " << steps;
}

// stored frames, state files, conserved quantities, and a run that ends on time
static void p_store(pbt::source& s, pbt::ctx& c)
{
	clean_dir(c.workdir);
	QDir tmp(QString::fromStdString(c.workdir));
	QString base(tmp.filePath("s"));
	size_t n = 1 + s.draw(8);
	nbody_data d;
	gen_bodies(s, c, n, d);
	d.set_box_size(3);
	std::vector<nbody_data*> frames;
	struct owner { std::vector<nbody_data*>& f; ~owner() { for(auto* p : f) { delete p; } } } own{frames};
	size_t count = 1 + s.draw(5);
	{
		nbody_data_stream w;
		PBT_CHECK(w.open(base, s.chance(1, 2) ? 1 : 1000000) == 0, "stream not opened");
		for(size_t k = 0; k != count; ++k)
		{
			d.set_time(static_cast<real>(k) / 8);
			d.set_step(k * 3);
			for(size_t i = 0; i != n; ++i)
			{
				d.get_vertites()[i] += nbvertex_t(rnd(s, 1), rnd(s, 1), rnd(s, 1));
				d.get_velosites()[i] = nbvertex_t(rnd(s, 1), rnd(s, 1), rnd(s, 1));
			}
			PBT_CHECK(w.write(&d) == 0, "frame not written");
			frames.push_back(new nbody_data(d));
		}
		w.close();
	}
	nbody_data_stream_reader rd;
	PBT_CHECK(rd.load(base) == 0 && rd.get_frame_count() == count && rd.get_body_count() == n && rd.get_box_size() == 3, "stream not loaded as written");
	for(size_t t = 0; t != count + 2; ++t)
	{
		size_t k = t < count ? t : s.draw(count - 1);
		if(t >= count) { PBT_CHECK(rd.seek(k) == 0, "seek failed"); }
		nbody_data x;
		for(size_t i = 0; i != n; ++i) { x.add_body(nbvertex_t(0, 0, 0), nbvertex_t(0, 0, 0), 1, nbcolor_t(1, 1, 1, 1)); }
		PBT_CHECK(rd.read(&x) == 0, "frame " << k << " not read");
		PBT_CHECK(x.get_step() == k * 3 && x.get_time() == frames[k]->get_time(), "time or step of frame " << k);
		for(size_t i = 0; i != n; ++i)
		{
			nbvertex_t r(x.get_vertites()[i]), r0(frames[k]->get_vertites()[i]), v(x.get_velosites()[i]), v0(frames[k]->get_velosites()[i]);
			PBT_CHECK(r.x == r0.x && r.y == r0.y && r.z == r0.z && v.x == v0.x && v.y == v0.y && v.z == v0.z, "frame " << k << " body " << i << " differs: " << S(r.x) << " instead of " << S(r0.x));
		}
	}
	// a text file keeps the precision of double at least
	PBT_CHECK(d.save(tmp.filePath("t.txt")), "not saved");
	nbody_data x;
	PBT_CHECK(x.load(tmp.filePath("t.txt")) && x.get_count() == n, "not loaded");
	for(size_t i = 0; i != n; ++i)
	{
		nbvertex_t r(x.get_vertites()[i]), r0(d.get_vertites()[i]), v(x.get_velosites()[i]), v0(d.get_velosites()[i]);
		real p[7] = {r.x, r.y, r.z, v.x, v.y, v.z, x.get_mass()[i]}, p0[7] = {r0.x, r0.y, r0.z, v0.x, v0.y, v0.z, d.get_mass()[i]};
		for(int q = 0; q != 7; ++q)
		{
			quad tol = is_quad ? 1.2e-16Q * qabs(p0[q]) : 0;
			PBT_CHECK(qabs(static_cast<quad>(p[q]) - p0[q]) <= tol, "state file: value " << q << " of body " << i << " is " << S(p[q]) << " instead of " << S(p0[q]));
		}
	}
	c.nontrivial();
	c.text << "n=" << n << " frames " << count;
}

// a run: momentum is conserved and reported with the precision of the type, the end time is met
static void p_run(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<method> ms = methods();
	static const std::vector<std::string> en{"simple", "openmp"};
	pmap sp = ms[s.strat(ms.size())].p;
	std::string ename = s.pick(en);
	size_t n = s.size(2, 14);
	nbody_data d;
	for(size_t i = 0; i != n; ++i)
	{
		d.add_body(nbvertex_t(rnd(s, 1) + static_cast<real>(i), rnd(s, 1), rnd(s, 1)), nbvertex_t(rnd(s, 1), rnd(s, 1), rnd(s, 1)), static_cast<real>(s.positive(1e-2, 1) * (1 + 1e-15Q * s.unit() + 1e-29Q * s.unit())), nbcolor_t(1, 0, 1, 1));
	}
	d.set_check_list("PELV");
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", ename}})));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	std::unique_ptr<nbody_solver> so(nbody_create_solver(params(sp)));
	PBT_CHECK(so != nullptr, "solver not created");
	so->set_engine(e.get());
	size_t steps = 1 + s.draw(6);
	real h = static_cast<real>(1) / (64 << s.draw(3));
	so->set_time_step(h, h);
	quad P0[3] = {0, 0, 0}, mag = 0;
	auto momentum = [&](const vec & y, int q) { quad p = 0; for(size_t i = 0; i != n; ++i) { p += static_cast<quad>(d.get_mass()[i]) * y[(3 + q) * n + i]; } return p; };
	vec y0(read_y(e.get(), e->get_y(), 6 * n));
	for(int q = 0; q != 3; ++q) { P0[q] = momentum(y0, q); }
	PBT_CHECK(so->run(&d, nullptr, static_cast<real>(steps) * h, 0, 0) == 0, "run failed");
	vec y(read_y(e.get(), e->get_y(), 6 * n));
	PBT_CHECK(qabs(e->get_time() - static_cast<quad>(steps) * h) <= EPS * 8, "run of " << steps << " steps ended at " << S(e->get_time()) << ", step " << e->get_step());
	quad flux = 0;
	for(size_t i = 0; i != n; ++i)
	{
		for(size_t j = 0; j != n; ++j)
		{
			if(i == j) { continue; }
			quad r2 = 1e-8Q, r2b = 1e-8Q;
			for(int q = 0; q != 3; ++q) { quad a = static_cast<quad>(y[q * n + i]) - y[q * n + j], b = static_cast<quad>(y0[q * n + i]) - y0[q * n + j]; r2 += a * a; r2b += b * b; }
			flux += static_cast<quad>(d.get_mass()[i]) * d.get_mass()[j] / qmax(1e-8Q, r2 < r2b ? r2 : r2b);
		}
		for(int q = 3; q != 6; ++q) { mag += static_cast<quad>(d.get_mass()[i]) * qmax(qabs(y[q * n + i]), qabs(y0[q * n + i])); }
	}
	if(!(flux < 1e4Q) || !(mag < 1e4Q)) { throw pbt::discard(); }
	d.print_statistics(e.get());
	quad M = 0;
	for(size_t i = 0; i != n; ++i) { M += d.get_mass()[i]; }
	nbvertex_t gp = d.get_last_total_impulce(), gc = d.get_last_mass_center();
	real gpv[3] = {gp.x, gp.y, gp.z}, gcv[3] = {gc.x, gc.y, gc.z};
	for(int q = 0; q != 3; ++q)
	{
		quad p = momentum(y, q), cm = 0, cmag = 0;
		quad tol = EPS * 2000 * static_cast<quad>(steps + 8) * (mag + flux);
		PBT_CHECK(qabs(p - P0[q]) <= tol, ename << ", " << sp["solver"] << ", " << steps << " steps: momentum " << q << " of " << n << " bodies went from " << S(P0[q]) << " to " << S(p) << ", allowed change " << D(tol));
		PBT_CHECK(qabs(gpv[q] - p) <= 16 * EPS * mag, "reported momentum " << S(gpv[q]) << ", exact " << S(p));
		for(size_t i = 0; i != n; ++i) { cm += static_cast<quad>(d.get_mass()[i]) * y[q * n + i]; cmag += qabs(static_cast<quad>(d.get_mass()[i]) * y[q * n + i]); }
		PBT_CHECK(qabs(gcv[q] - cm / M) <= 16 * EPS * cmag / M, "reported mass centre " << S(gcv[q]) << ", exact " << S(cm / M));
	}
	quad E = 0, Em = 0;
	for(size_t i = 0; i != n; ++i)
	{
		for(int q = 3; q != 6; ++q) { quad k = static_cast<quad>(d.get_mass()[i]) * y[q * n + i] * y[q * n + i] / 2; E += k; Em += k; }
		for(size_t j = 0; j != i; ++j)
		{
			quad r2 = 0;
			for(int q = 0; q != 3; ++q) { quad a = static_cast<quad>(y[q * n + i]) - y[q * n + j]; r2 += a * a; }
			if(r2 < 1.01Q * static_cast<quad>(nbody::MinDistance)) { throw pbt::discard(); }
			quad u = static_cast<quad>(d.get_mass()[i]) * d.get_mass()[j] / sqrtq(r2);
			E -= u;
			Em += u;
		}
	}
	PBT_CHECK(qabs(d.get_last_total_energy() - E) <= 32 * EPS * Em, "reported energy " << S(d.get_last_total_energy()) << ", exact " << S(E));
	c.label(sp["solver"]);
	c.nontrivial();
	c.text << ename << " " << sp["solver"] << " n=" << n << " steps=" << steps << " h=" << D(h);
}

int main(int argc, char** argv)
{
	qInstallMessageHandler([](QtMsgType, const QMessageLogContext&, const QString&) {});
	std::vector<pbt::prop> p;
	bool orders = getenv("C27_ORDERS") != nullptr;
	if(is_quad || !orders) { p.push_back({"poly", p_poly, 6000, 200000, 0, 60, false}); }
	if(is_quad) { p.push_back({"order", p_order, 1500, 40000, 0, 60, false}); }
	if(!orders)
	{
		p.push_back({"accel", p_accel, 4000, 100000, 0, 60, false});
		p.push_back({"ops", p_ops, 1500, 40000, 0, 60, false});
		p.push_back({"run", p_run, 2000, 60000, 0, 60, false});
		p.push_back({"store", p_store, 1500, 40000, 0, 60, false});
	}
	return pbt::runner(p).main(argc, argv);
}
