// C20: generated universes
#include "common.h"

struct snap
{
	std::vector<nbvertex_t>	r, v;
	std::vector<double>		m;
	std::vector<float>		col;
	size_t					box;
};

static snap take(const nbody_data& d)
{
	snap o;
	size_t n = d.get_count();
	o.r.assign(d.get_vertites(), d.get_vertites() + n);
	o.v.assign(d.get_velosites(), d.get_velosites() + n);
	o.m.assign(d.get_mass(), d.get_mass() + n);
	for(size_t i = 0; i != n; ++i)
	{
		auto q = d.get_color()[i];
		o.col.push_back(q.x);
		o.col.push_back(q.y);
		o.col.push_back(q.z);
		o.col.push_back(q.w);
	}
	o.box = static_cast<size_t>(d.get_box_size());
	return o;
}

static void universe(pbt::source& s, pbt::ctx& c)
{
	static const size_t special[] = {0, 1, 63, 64, 65, 127, 128, 129, 640, 1000};
	size_t stars = s.chance(1, 40) ? 1000 + s.draw(6000) : s.draw(2) == 0 ? special[s.draw(9)] : s.size(0, 700);
	auto side = [&]() -> double
	{
		switch(s.draw(3))
		{
		case 0: return 100;
		case 1: return static_cast<double>(s.range(1, 1000));
		case 2: return s.positive(0.01, 1e6);
		default: return s.positive(1, 1e3);
		}
	};
	double sx = side(), sy = s.chance(1, 2) ? sx : side(), sz = s.chance(1, 2) ? sx : side();
	c.text << "stars " << stars << " box " << sx << " " << sy << " " << sz;
	nbody_data d;
	uint64_t before = s.draw(3);
	if(before == 1)
	{
		bodies b = gen_bodies(s, c, s.size(1, 30), 10, true);
		b.fill(d);
		c.label("state held other bodies");
	}
	else if(before == 2)
	{
		d.make_universe(s.size(0, 200), 50, 60, 70);
		c.label("state held another universe");
	}
	else if(before == 3)
	{
		// generators of other objects must not influence this one
		nbody_data other;
		other.make_universe(s.size(0, 100), 10, 10, 10);
		srand(static_cast<unsigned>(s.draw(1000)));
	}
	if(s.chance(1, 3))	// a state in use
	{
		d.set_step(static_cast<size_t>(s.draw(1000)));
		d.set_time(s.number(50));
		d.set_box_size(1 + static_cast<nbcoord_t>(s.draw(100)));
	}
	d.make_universe(stars, sx, sy, sz);
	size_t per = std::max<size_t>(64, (stars + 63) / 64 * 64), n = d.get_count();
	PBT_CHECK(n == 2 * per, n << " bodies instead of " << 2 * per);
	double R = sx / 2, C[3] = {sx / 2, sy / 2, sz / 2};
	double cmax = std::max(sx, std::max(sy, sz));
	double want_box = std::floor(std::max(1.0, cmax));
	PBT_CHECK(d.get_box_size() == want_box, "box " << d.get_box_size() << " instead of " << want_box);
	double q = std::max(R * R, 1e-8);
	double gal_v = std::sqrt(1000 * 1000 * R / (q * std::sqrt(q)) * R / 2000) / 3;
	double eps = 2.3e-16;
	for(size_t g = 0; g != 2; ++g)
	{
		double sgn = g ? 1 : -1;
		double cx[3] = {C[0] + sgn * R, C[1], C[2]};
		double gv = -sgn * gal_v;
		const nbvertex_t* r = d.get_vertites() + g * per;
		const nbvertex_t* v = d.get_velosites() + g * per;
		const nbcoord_t* m = d.get_mass() + g * per;
		PBT_CHECK(std::fabs(r[0].x - cx[0]) <= 4 * eps * cmax && std::fabs(r[0].y - cx[1]) <= 4 * eps * cmax && std::fabs(r[0].z - cx[2]) <= 4 * eps * cmax,
				  "galaxy " << g << ": the first body is at " << r[0].x << "," << r[0].y << "," << r[0].z << ", the centre at " << cx[0] << "," << cx[1] << "," << cx[2]);
		PBT_CHECK(v[0].x == 0 && v[0].z == 0 && std::fabs(v[0].y - gv) <= 1e-14 * std::fabs(gv), "galaxy " << g << " moves with " << v[0].x << "," << v[0].y << "," << v[0].z << " instead of 0," << gv << ",0");
		PBT_CHECK(std::fabs(m[0] - 999) < 1e-9, "central mass " << m[0]);
		ld total = 0;
		for(size_t i = 0; i != per; ++i)
		{
			PBT_CHECK(std::isfinite(m[i]) && m[i] > 0, "mass of body " << i << " is " << m[i]);
			total += m[i];
		}
		PBT_CHECK(fabsl(total - 1000) < 1e-8, "galaxy " << g << " has the mass " << static_cast<double>(total));
		for(size_t i = 1; i != per; ++i)
		{
			PBT_CHECK(m[i] == m[1], "stars of different masses");
			double x = r[i].x - r[0].x, y = r[i].y - r[0].y, z = r[i].z - r[0].z;
			double d2 = x * x + y * y + z * z, dist = std::sqrt(d2);
			double full = std::sqrt(x * x + y * y + z * z / 0.09);
			double err = 20 * eps * cmax;	// cancellation in the difference of the positions
			PBT_CHECK(std::isfinite(full) && full <= R * (1 + 1e-13) + 4 * err, "galaxy " << g << " star " << i << " lies at " << full << " (unflattened) from the centre, outside the radius " << R);
			PBT_CHECK(std::fabs(z) <= 0.3 * R * (1 + 1e-13) + err, "the galaxy is not flattened");
			double vx = v[i].x - v[0].x, vy = v[i].y - v[0].y, vz = v[i].z - v[0].z;
			double speed = std::sqrt(vx * vx + vy * vy + vz * vz);
			PBT_CHECK(std::isfinite(speed), "velocity of star " << i);
			double rel = 1e-12 + 4 * err / dist;
			if(rel > 1e-3) { continue; }
			double eff = 999 + std::pow(full / R, 3.0) * 1.0;
			double soft = std::max(d2, 1e-8);
			double want = std::sqrt(eff * dist / (soft * std::sqrt(soft)) * dist);
			double vtol = rel * 8 * want + 8 * eps * std::fabs(gv);
			PBT_CHECK(std::fabs(speed - want) <= vtol, "galaxy " << g << " star " << i << " at distance " << dist << " has the orbital speed " << speed << " instead of " << want);
			double dot = x * vx + y * vy + z * vz;
			double planar = std::sqrt(x * x + y * y);
			if(planar < 1e-6) { continue; }
			double tilt = 1 + dist / planar;
			PBT_CHECK(std::fabs(dot) <= vtol * dist * 4 * tilt, "galaxy " << g << " star " << i << ": orbital velocity not perpendicular to the radius (" << dot << ")");
			PBT_CHECK(std::fabs(vz) <= vtol * 4 * tilt, "galaxy " << g << " star " << i << " leaves the plane of its orbit: " << vz);
			// all stars of a galaxy circle the same way
			PBT_CHECK(x * vy - y * vx < 0, "galaxy " << g << " star " << i << " circles backwards");
		}
		// the stars are spread over the whole galaxy
		if(per >= 64)
		{
			double far = 0;
			bool oct[8] = {};
			for(size_t i = 1; i != per; ++i)
			{
				double x = r[i].x - r[0].x, y = r[i].y - r[0].y, z = r[i].z - r[0].z;
				far = std::max(far, std::sqrt(x * x + y * y + z * z / 0.09));
				oct[(x > 0) + 2 * (y > 0) + 4 * (z > 0)] = true;
			}
			if(cmax / sx < 1e10)
			{
				PBT_CHECK(far > 0.8 * R, "no star farther than " << far << " in a galaxy of radius " << R);
				for(bool o : oct) { PBT_CHECK(o, "an octant of the galaxy is empty"); }
			}
		}
	}
	nbody_data again;
	again.make_universe(stars, sx, sy, sz);
	snap a = take(d), b = take(again);
	PBT_CHECK(a.r.size() == b.r.size() && memcmp(a.r.data(), b.r.data(), a.r.size() * sizeof(nbvertex_t)) == 0 &&
			  memcmp(a.v.data(), b.v.data(), a.v.size() * sizeof(nbvertex_t)) == 0 && a.m == b.m && a.col == b.col && a.box == b.box, "the same arguments gave another universe");
	for(float f : a.col) { PBT_CHECK(f >= 0 && f <= 1, "colour component " << f); }
	// an engine starts with exactly these bodies
	if(s.chance(1, 4))
	{
		std::unique_ptr<nbody_engine> e(nbody_create_engine(params({{"engine", "simple"}})));
		PBT_CHECK(e->init(&d), "init failed");
		auto y = read_y(e.get(), e->get_y(), 6 * n);
		for(size_t i = 0; i != n; ++i)
		{
			PBT_CHECK(y[i] == a.r[i].x && y[n + i] == a.r[i].y && y[2 * n + i] == a.r[i].z && y[3 * n + i] == a.v[i].x && y[4 * n + i] == a.v[i].y && y[5 * n + i] == a.v[i].z, "engine state differs for body " << i);
		}
	}
	if(stars > 0) { c.nontrivial(); }
	c.label(stars % 64 ? "count not a multiple of a block" : "whole blocks");
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"universe", universe, 20000, 600000, 0, 20, false}}).main(argc, argv);
}
