// C17: reported conserved quantities against quad precision sums of the current state
#include "common.h"

typedef __float128 q_t;
static const double EPS = 2.220446049250313e-16;

static q_t qsqrt(q_t x)
{
	if(x <= 0) { return 0; }
	q_t r = sqrtl(static_cast<long double>(x));
	for(int i = 0; i != 2; ++i) { r = (r + x / r) / 2; }
	return r;
}

struct quantities
{
	q_t p[3], l[3], c[3], e;
	q_t pt[3], lt[3], ct[3], et;	// sums of magnitudes
};

static quantities reference(const std::vector<double>& y, const std::vector<double>& m)
{
	size_t n = m.size();
	quantities o;
	memset(&o, 0, sizeof o);
	q_t M = 0;
	auto a = [](q_t x) { return x < 0 ? -x : x; };
	for(size_t i = 0; i != n; ++i)
	{
		q_t r[3] = {y[i], y[n + i], y[2 * n + i]}, v[3] = {y[3 * n + i], y[4 * n + i], y[5 * n + i]};
		M += m[i];
		for(int k = 0; k != 3; ++k)
		{
			int k1 = (k + 1) % 3, k2 = (k + 2) % 3;
			o.p[k] += m[i] * v[k];
			o.pt[k] += a(m[i] * v[k]);
			o.l[k] += m[i] * (r[k1] * v[k2] - r[k2] * v[k1]);
			o.lt[k] += m[i] * (a(r[k1] * v[k2]) + a(r[k2] * v[k1]));
			o.c[k] += m[i] * r[k];
			o.ct[k] += a(m[i] * r[k]);
			o.e += m[i] * v[k] * v[k] / 2;
			o.et += m[i] * v[k] * v[k] / 2;
		}
		for(size_t j = 0; j != i; ++j)
		{
			q_t d2 = 0;
			for(int k = 0; k != 3; ++k)
			{
				q_t d = r[k] - static_cast<q_t>(y[k * n + j]);
				d2 += d * d;
			}
			double near = static_cast<double>(d2 / 1e-8Q);
			if(std::fabs(near - 1) < 1e-9) { throw pbt::discard(); }
			if(near < 1) { continue; }
			q_t u = static_cast<q_t>(m[i]) * m[j] / qsqrt(d2);
			o.e -= u;
			o.et += u;
		}
	}
	for(int k = 0; k != 3; ++k)
	{
		o.c[k] /= M;
		o.ct[k] /= M;
	}
	return o;
}

static void p_report(pbt::source& s, pbt::ctx& c)
{
	size_t n = s.chance(1, 300) ? 400 + s.draw(900) : s.chance(1, 12) ? s.draw(120) + 1 : s.size(1, 20);
	double scale = s.positive(1e-3, 1e4);
	bodies b = gen_bodies(s, c, n, scale);
	nbody_data d;
	b.fill(d);
	d.set_time(s.number(10));
	static const char* const en[] = {"", "simple", "openmp", "block", "simple_bh"};
	std::string ename = en[s.strat(5)];
	std::unique_ptr<nbody_engine> e;
	if(!ename.empty())
	{
		e.reset(nbody_create_engine(params({{"engine", ename}})));
		PBT_CHECK(e && e->init(&d), "engine");
	}
	bool first = true, listed0[4] = {false, false, false, false};
	double init_p[3], init_l[3], init_c[3], init_e = 0, last_p[3] = {0, 0, 0}, last_l[3] = {0, 0, 0}, last_c[3] = {0, 0, 0}, last_e = 0;
	size_t reports = 1 + s.draw(4);
	std::vector<double> y = b.y();
	bool in_list[4] = {true, false, true, true};	// P E L V: the default list is PLV
	auto get3 = [](const nbvertex_t& v, double* o) { o[0] = v.x; o[1] = v.y; o[2] = v.z; };
	for(size_t k = 0; k != reports; ++k)
	{
		if(s.chance(2, 3))
		{
			std::string list;
			static const char names[] = "PELV";
			for(int q = 0; q != 4; ++q) { in_list[q] = s.chance(2, 3); if(in_list[q]) { list += names[q]; } }
			if(s.chance(1, 3)) { std::reverse(list.begin(), list.end()); }
			if(s.chance(1, 5)) { list += ",x"; }
			d.set_check_list(QString::fromStdString(list));
		}
		if(k && s.chance(3, 4))
		{
			// another state
			bodies nb = gen_bodies(s, c, n, scale);
			nb.m = b.m;
			y = nb.y();
			if(e) { e->write_buffer(e->get_y(), y.data()); }
			else
			{
				for(size_t i = 0; i != n; ++i)
				{
					d.get_vertites()[i] = nbvertex_t(nb.r[i].x, nb.r[i].y, nb.r[i].z);
					d.get_velosites()[i] = nbvertex_t(nb.v[i].x, nb.v[i].y, nb.v[i].z);
				}
			}
			d.set_time(d.get_time() + 1);
		}
		double t = d.get_time();
		size_t st = d.get_step();
		d.print_statistics(e.get());
		std::ostringstream id;
		id << "report " << k << " of n=" << n << " engine '" << ename << "' laws " << in_list[0] << in_list[1] << in_list[2] << in_list[3];
		// nothing but the report
		PBT_CHECK(d.get_time() == t && d.get_step() == st && d.get_count() == n, id.str() << ": time, step or count changed");
		if(e) { PBT_CHECK(same_bits(read_y(e.get(), e->get_y(), 6 * n), y), id.str() << ": the engine state changed"); }
		for(size_t i = 0; i != n; ++i)
		{
			const nbvertex_t& r = d.get_vertites()[i];
			const nbvertex_t& v = d.get_velosites()[i];
			PBT_CHECK(r.x == y[i] && r.y == y[n + i] && r.z == y[2 * n + i] && v.x == y[3 * n + i] && v.y == y[4 * n + i] && v.z == y[5 * n + i] && d.get_mass()[i] == b.m[i],
					  id.str() << ": body " << i << " is not that of the current state");
		}
		quantities w = reference(y, b.m);
		double gp[3], gl[3], gc[3], ge = d.get_last_total_energy();
		get3(d.get_last_total_impulce(), gp);
		get3(d.get_last_total_impulce_moment(), gl);
		get3(d.get_last_mass_center(), gc);
		auto cmp = [&](const char* what, double g, q_t x, q_t mag)
		{
			double err = static_cast<double>(static_cast<q_t>(g) - x);
			PBT_CHECK(std::fabs(err) <= 16 * EPS * static_cast<double>(mag) + 1e-300, id.str() << ": " << what << " " << g << ", exact " << static_cast<double>(x) << " (off by " << err << ")");
		};
		static const char* const ax[] = {"x", "y", "z"};
		for(int q = 0; q != 3; ++q)
		{
			if(in_list[0]) { cmp((std::string("momentum ") + ax[q]).c_str(), gp[q], w.p[q], w.pt[q]); }
			else { PBT_CHECK(gp[q] == last_p[q], id.str() << ": momentum changed although not listed"); }
			if(in_list[2]) { cmp((std::string("angular momentum ") + ax[q]).c_str(), gl[q], w.l[q], w.lt[q]); }
			else { PBT_CHECK(gl[q] == last_l[q], id.str() << ": angular momentum changed although not listed"); }
			if(in_list[3]) { cmp((std::string("mass centre ") + ax[q]).c_str(), gc[q], w.c[q], w.ct[q]); }
			else { PBT_CHECK(gc[q] == last_c[q], id.str() << ": mass centre changed although not listed"); }
		}
		if(in_list[1]) { cmp("energy", ge, w.e, w.et); }
		else { PBT_CHECK(ge == last_e, id.str() << ": energy changed although not listed"); }
		memcpy(last_p, gp, sizeof gp);
		memcpy(last_l, gl, sizeof gl);
		memcpy(last_c, gc, sizeof gc);
		last_e = ge;
		// initial values
		double ip[3], il[3], ic[3], ie = d.get_initial_energy();
		get3(d.get_initial_impulce(), ip);
		get3(d.get_initial_impulce_moment(), il);
		get3(d.get_initial_mass_center(), ic);
		if(first)
		{
			for(int q = 0; q != 4; ++q) { listed0[q] = in_list[q]; }
			memcpy(init_p, gp, sizeof gp);
			memcpy(init_l, gl, sizeof gl);
			memcpy(init_c, gc, sizeof gc);
			init_e = ge;
			first = false;
		}
		for(int q = 0; q != 3; ++q)
		{
			if(listed0[0]) { PBT_CHECK(ip[q] == init_p[q], id.str() << ": initial momentum is not that of the first report"); }
			if(listed0[2]) { PBT_CHECK(il[q] == init_l[q], id.str() << ": initial angular momentum is not that of the first report"); }
			if(listed0[3]) { PBT_CHECK(ic[q] == init_c[q], id.str() << ": initial mass centre is not that of the first report"); }
		}
		if(listed0[1]) { PBT_CHECK(ie == init_e, id.str() << ": initial energy is not that of the first report"); }
		// relative errors in per cent
		auto len = [](const double* a, const double* z) { return std::sqrt((a[0] - z[0]) * (a[0] - z[0]) + (a[1] - z[1]) * (a[1] - z[1]) + (a[2] - z[2]) * (a[2] - z[2])); };
		static const double zero[3] = {0, 0, 0};
		auto rel = [&](const char* what, double g, double num_, double den)
		{
			if(!(den > 1e-100) || !(num_ == 0 || num_ > 1e-100) || den > 1e100 || num_ > 1e100) { return; }
			double x = 100 * num_ / den;
			PBT_CHECK(std::fabs(g - x) <= 1e-13 * x, id.str() << ": relative " << what << " error " << g << ", expected " << x);
		};
		if(listed0[0]) { rel("momentum", d.get_impulce_err(), len(gp, ip), len(ip, zero)); }
		if(listed0[2]) { rel("angular momentum", d.get_impulce_moment_err(), len(gl, il), len(il, zero)); }
		if(listed0[1]) { rel("energy", d.get_energy_err(), std::fabs(ge - ie), std::fabs(ie)); }
		if(c.verbose && k == 0) { c.text << id.str() << " energy " << ge << " momentum " << gp[0] << "," << gp[1] << "," << gp[2] << " "; }
	}
	c.label("engine '" + ename + "'");
	if(n > 1) { c.nontrivial(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"report", p_report, 30000, 800000, 0, 60, false}}).main(argc, argv);
}
