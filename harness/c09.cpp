// C09: the run loop: end time, dump and check schedule, frame contents, failing store
#include "ode_engine.h"
#include "nbody_data_stream.h"
#include "nbody_step_visitor.h"

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

static vec flat(const nbody_data* d)
{
	vec o;
	for(size_t i = 0; i != d->get_count(); ++i)
	{
		const nbvertex_t& r = d->get_vertites()[i];
		const nbvertex_t& v = d->get_velosites()[i];
		o.insert(o.end(), {r.x, r.y, r.z, v.x, v.y, v.z});
	}
	return o;
}

struct frame
{
	double	t;
	size_t	step;
	vec		y;
};

class mock_stream : public nbody_data_stream
{
public:
	std::vector<frame>	frames;
	long				fail_at;
	long				calls;
	mock_stream() : fail_at(-1), calls(0) {}
	int write(const nbody_data* d) override
	{
		if(calls++ == fail_at) { return -1; }
		frames.push_back({d->get_time(), d->get_step(), flat(d)});
		return 0;
	}
};

class mock_visitor : public nbody_step_visitor
{
public:
	std::vector<frame>	seen;
	void visit(const nbody_data* d) override { seen.push_back({d->get_time(), d->get_step(), flat(d)}); }
};

static std::vector<pmap> solvers()
{
	std::vector<pmap> o;
	for(const char* n : {"euler", "midpoint", "midpoint-st", "rk4", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkgl", "rklc", "trapeze"})
	{
		o.push_back({{"solver", n}, {"error_threshold", "1e-3"}, {"max_recursion", "2"}});
	}
	o.push_back({{"solver", "adams"}, {"rank", "1"}});
	o.push_back({{"solver", "adams"}, {"rank", "3"}, {"starter_solver", "rk4"}});
	o.push_back({{"solver", "adams"}, {"rank", "5"}, {"correction", "true"}});
	o.push_back({{"solver", "bs"}, {"max_level", "4"}});
	return o;
}

static std::vector<pmap> engines()
{
	return {{{"engine", "simple"}}, {{"engine", "openmp"}}, {{"engine", "block"}}, {{"engine", "simple_bh"}},
		{{"engine", "simple_bh"}, {"tree_layout", "heap"}}, {{"engine", "ah"}}};
}

struct setup
{
	nbody_data						d;
	std::unique_ptr<nbody_engine>	e;
	std::unique_ptr<nbody_solver>	s;
	setup(const bodies& b, const pmap& ep, const pmap& sp, double dt, double t0, size_t step0)
	{
		b.fill(d);
		d.set_time(t0);
		d.set_step(step0);
		e.reset(nbody_create_engine(params(ep)));
		PBT_CHECK(e != nullptr && e->init(&d), "engine");
		s.reset(nbody_create_solver(params(sp)));
		PBT_CHECK(s != nullptr, "solver");
		s->set_engine(e.get());
		s->set_time_step(dt * 1e-3, dt);
	}
};

static void p_run(pbt::source& s, pbt::ctx& c)
{
	static const std::vector<pmap> sv = solvers(), en = engines();
	const pmap& sp = sv[s.strat(sv.size())];
	const pmap& ep = en[s.draw(en.size() - 1)];
	bool bs = sp.at("solver") == "bs";
	size_t n = s.size(1, 5);
	bodies b = gen_bodies(s, c, n, 3, false);
	static const double dts[] = {0.125, 0.1, 0.3, 0.01, 1.0 / 3, 1e-3, 2.5};
	double dt = s.chance(1, 3) ? s.positive(1e-3, 2) : dts[s.draw(6)];
	double t0 = 0;
	switch(s.draw(4))
	{
	case 0: case 1: break;
	case 2: t0 = dt * static_cast<double>(s.range(-6, 20)); break;
	case 3: t0 = s.number(5); break;
	case 4: t0 = s.positive(1e-12, 1e-3); break;
	}
	size_t step0 = s.chance(1, 2) ? 0 : s.draw(50);
	auto interval = [&]()
	{
		switch(s.draw(6))
		{
		case 0: return 0.0;
		case 1: return -1.0;
		case 2: return dt * static_cast<double>(1 + s.draw(7));
		case 3: return dt * (static_cast<double>(1 + s.draw(5)) + (s.chance(1, 2) ? 0.05 : -0.05));
		case 4: return dt * (static_cast<double>(1 + s.draw(5)) + s.unit());
		case 5: return dt * 0.03;
		default: return dt * 1.7 * s.unit() + 1e-9;
		}
	};
	setup a(b, ep, sp, dt, t0, step0), ref(b, ep, sp, dt, t0, step0);
	if(s.chance(1, 2)) { a.d.set_check_list("PLVE"); }
	mock_stream stream;
	std::vector<std::shared_ptr<mock_visitor>> vis;
	for(size_t k = s.draw(4); k; --k)
	{
		vis.push_back(std::make_shared<mock_visitor>());
		a.s->add_check_visitor(vis.back());
	}
	size_t longrun = s.chance(1, 40) ? 20 : 1;	// a few runs of hundreds of steps
	size_t runs = 1 + s.draw(2);
	size_t dumps_total = 0, checks_total = 0;
	auto state = [&](nbody_engine * e) { e->get_data(&ref.d); return flat(&ref.d); };
	std::vector<frame> want, wantv;
	for(size_t r = 0; r != runs; ++r)
	{
		double dd = interval(), cd = interval();
		bool with_stream = !s.chance(1, 6);
		double start = ref.d.get_time(), end;
		switch(s.draw(4))
		{
		case 0: end = start + dt * static_cast<double>(longrun * s.draw(12)); break;
		case 1: end = start + dt * (static_cast<double>(longrun * s.draw(20)) + s.unit()); break;
		case 2: end = start - dt * s.unit(); break;
		case 3: end = std::nextafter(start + dt * static_cast<double>(s.draw(12)), s.chance(1, 2) ? 1e300 : -1e300); break;
		default:
		{
			// exactly a time the accumulation reaches
			end = start;
			for(size_t k = s.draw(12); k; --k) { end += dt; }
		}
		}
		stream.calls = 0;
		stream.fail_at = s.chance(1, 6) ? static_cast<long>(s.draw(longrun > 1 ? 150 : 5)) : -1;
		int rc = a.s->run(&a.d, with_stream ? &stream : nullptr, end, dd, cd);

		// model
		int want_rc = 0;
		long call = 0;
		double last_d = start, last_c = start;
		size_t steps = 0;
		auto dump = [&]()
		{
			if(call++ == stream.fail_at) { want_rc = -1; return; }
			want.push_back({ref.d.get_time(), ref.d.get_step(), state(ref.e.get())});
			++dumps_total;
		};
		bool dumping = with_stream && dd > 0;
		if(dumping && start <= 0) { dump(); }
		while(want_rc == 0 && ref.d.get_time() < end)
		{
			double before = ref.d.get_time();
			size_t sb = ref.d.get_step();
			ref.s->advise(dt);
			++steps;
			double t = ref.d.get_time();
			PBT_CHECK(t == before + dt, sp.at("solver") << ": time " << before << " advanced by " << dt << " became " << t);
			PBT_CHECK(bs ? ref.d.get_step() > sb : ref.d.get_step() == sb + 1, sp.at("solver") << ": step " << sb << " became " << ref.d.get_step());
			double tol = 1e-9 * (std::fabs(t) + dt);
			if((cd > 0 && std::fabs(t - (last_c + cd - dt * 0.1)) < tol) || (dumping && std::fabs(t - (last_d + dd - dt * 0.1)) < tol)) { throw pbt::discard(); }
			if(cd > 0 && t >= last_c + cd - dt * 0.1)
			{
				wantv.push_back({t, ref.d.get_step(), state(ref.e.get())});
				last_c = t;
				++checks_total;
			}
			if(dumping && t >= last_d + dd - dt * 0.1) { dump(); last_d = t; }
		}
		std::ostringstream id;
		id.precision(17);
		id << sp.at("solver") << "/" << ep.at("engine") << " n=" << n << " dt=" << dt << " run " << r << " from " << start << " to " << end << " dump " << dd << " check " << cd
		   << (with_stream ? "" : " no stream") << " fail at " << stream.fail_at;
		if(c.verbose) { c.text << id.str() << " (" << steps << " steps, " << want.size() << " frames); "; }
		PBT_CHECK((rc == 0) == (want_rc == 0), id.str() << ": returned " << rc);
		PBT_CHECK(a.d.get_time() == ref.d.get_time(), id.str() << ": ended at time " << a.d.get_time() << ", expected " << ref.d.get_time());
		PBT_CHECK(a.d.get_step() == ref.d.get_step(), id.str() << ": ended at step " << a.d.get_step() << ", expected " << ref.d.get_step());
		PBT_CHECK(same_bits(read_y(a.e.get(), a.e->get_y(), 6 * n), read_y(ref.e.get(), ref.e->get_y(), 6 * n)), id.str() << ": the final state differs from plain stepping");
		auto compare = [&](const std::vector<frame>& got, const std::vector<frame>& exp, const char* what)
		{
			for(size_t k = 0; k != std::min(got.size(), exp.size()); ++k)
			{
				PBT_CHECK(got[k].t == exp[k].t && got[k].step == exp[k].step, id.str() << ": " << what << " " << k << " at time " << got[k].t << " step " << got[k].step << ", expected "
						  << exp[k].t << " step " << exp[k].step);
				PBT_CHECK(same_bits(got[k].y, exp[k].y), id.str() << ": " << what << " " << k << " at time " << got[k].t << " does not hold the state of that time");
			}
			PBT_CHECK(got.size() == exp.size(), id.str() << ": " << got.size() << " " << what << "s, expected " << exp.size());
		};
		compare(stream.frames, want, "frame");
		for(auto& v : vis) { compare(v->seen, wantv, "check"); }
		if(want_rc != 0) { c.label("failing store"); break; }
	}
	if(dumps_total > 1) { c.label("several dumps"); }
	if(checks_total > 1 && !vis.empty()) { c.label("several checks"); }
	if(dumps_total + checks_total > 1) { c.nontrivial(); }
	c.label(sp.at("solver"));
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"run", p_run, 24000, 600000, 0, 60, false}}).main(argc, argv);
}
