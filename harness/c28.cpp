// C28: a simulation on OpenCL devices is the simulation on the processor; the devices get everything back
#include "common.h"
#include "nbody_data_stream.h"
#include "nbody_step_visitor.h"
#include <atomic>
#include <dlfcn.h>
#include <CL/cl.h>

typedef std::map<std::string, std::string> pmap;
typedef std::vector<double> vec;

// references to device memory the engine holds
static std::atomic<long> g_mem(0);
template<class F> static F next(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
extern "C" cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t s, void* p, cl_int* e)
{
	static auto g = next<cl_mem(*)(cl_context, cl_mem_flags, size_t, void*, cl_int*)>("clCreateBuffer");
	cl_mem m = g(c, f, s, p, e);
	if(m) { ++g_mem; }
	return m;
}
extern "C" cl_mem clCreateSubBuffer(cl_mem b, cl_mem_flags f, cl_buffer_create_type t, const void* p, cl_int* e)
{
	static auto g = next<cl_mem(*)(cl_mem, cl_mem_flags, cl_buffer_create_type, const void*, cl_int*)>("clCreateSubBuffer");
	cl_mem m = g(b, f, t, p, e);
	if(m) { ++g_mem; }
	return m;
}
extern "C" cl_int clRetainMemObject(cl_mem m)
{
	static auto g = next<cl_int(*)(cl_mem)>("clRetainMemObject");
	cl_int r = g(m);
	if(r == CL_SUCCESS) { ++g_mem; }
	return r;
}
extern "C" cl_int clReleaseMemObject(cl_mem m)
{
	static auto g = next<cl_int(*)(cl_mem)>("clReleaseMemObject");
	cl_int r = g(m);
	if(r == CL_SUCCESS) { --g_mem; }
	return r;
}

static vec flat(const nbody_data* d)
{
	vec o;
	for(size_t i = 0; i != d->get_count(); ++i)
	{
		const nbvertex_t& r = d->get_vertites()[i];
		const nbvertex_t& v = d->get_velosites()[i];
		o.insert(o.end(), {r.x, r.y, r.z, v.x, v.y, v.z});
	}
	return o;
}

struct frame
{
	std::string	what;
	vec			y;		// state, then time, step, number of evaluations
};

class store : public nbody_data_stream
{
public:
	std::vector<frame>*	f;
	int write(const nbody_data* d) override
	{
		vec y = flat(d);
		y.push_back(d->get_time());
		y.push_back(static_cast<double>(d->get_step()));
		f->push_back({"stored frame", y});
		return 0;
	}
};

class watch : public nbody_step_visitor
{
public:
	std::vector<frame>*	f;
	void visit(const nbody_data* d) override
	{
		vec y = flat(d);
		nbvertex_t p(d->get_last_total_impulce()), l(d->get_last_total_impulce_moment()), m(d->get_last_mass_center());
		y.insert(y.end(), {p.x, p.y, p.z, l.x, l.y, l.z, m.x, m.y, m.z, d->get_last_total_energy()});
		f->push_back({"report", y});
	}
};

struct world
{
	nbody_data						d;
	std::unique_ptr<nbody_engine>	e;
	std::unique_ptr<nbody_solver>	s;
	std::vector<frame>				log;
	void snap(const std::string& what)
	{
		size_t n = d.get_count();
		vec y = read_y(e.get(), e->get_y(), 6 * n);
		y.push_back(e->get_time());
		y.push_back(static_cast<double>(e->get_step()));
		y.push_back(static_cast<double>(e->get_compute_count()));
		log.push_back({what, y});
	}
};

struct action
{
	int		kind;	// 0 steps, 1 run, 2 reset, 3 new state
	size_t	steps;
	double	dt, dump, check, over;
	vec		y;
};

static void gen_state(pbt::source& s, bodies& b, size_t n)
{
	b.r.resize(n);
	b.v.resize(n);
	b.m.assign(n, 1.0 / static_cast<double>(n));
	size_t side = 1;
	while(side * side * side < n) { ++side; }
	double off = static_cast<double>(side) * s.unit();
	for(size_t i = 0; i != n; ++i)
	{
		// disturbed lattice: no close encounters
		b.r[i] = v3{static_cast<double>(i % side) + 0.3 * s.unit() - off, static_cast<double>(i / side % side) + 0.3 * s.unit() - off, static_cast<double>(i / side / side) + 0.3 * s.unit() - off};
		b.v[i] = v3{0.4 * s.unit() - 0.2, 0.4 * s.unit() - 0.2, 0.4 * s.unit() - 0.2};
		if(s.chance(1, 4)) { b.m[i] *= s.positive(0.1, 10); }
	}
}

static double closest(const vec& y, size_t n)
{
	double m = 1e300;
	for(size_t i = 0; i != n; ++i)
	{
		for(size_t j = 0; j != i; ++j)
		{
			double a = y[i] - y[j], b = y[n + i] - y[n + j], c = y[2 * n + i] - y[2 * n + j];
			m = std::min(m, a * a + b * b + c * c);
		}
	}
	return std::sqrt(m);
}

static void p_run(pbt::source& s, pbt::ctx& c)
{
	pmap p, ref, sp;
	bool bh = s.chance(1, 2);
	size_t bs = static_cast<size_t>(1) << s.draw(5);
	size_t unit = bs * (static_cast<size_t>(1) << s.draw(bs > 8 ? 2 : 3));	// devices
	size_t n = unit * s.size(1, std::max<size_t>(1, (s.chance(1, 10) ? 96 : 40) / unit));
	p["engine"] = bh ? "opencl_bh" : "opencl";
	p["block_size"] = std::to_string(bs);
	if(s.chance(2, 3)) { p["device"] = gen_devices(s, c, n, bs); }
	ref["engine"] = "simple";
	if(bh)
	{
		ref["engine"] = "simple_bh";
		ref["tree_layout"] = p["tree_layout"] = s.chance(1, 2) ? "heap" : "heap_stackless";
		ref["traverse_type"] = p["traverse_type"] = s.chance(1, 2) ? "cycle" : "nested_tree";
		if(s.chance(2, 3)) { ref["tree_build_rate"] = p["tree_build_rate"] = std::to_string(s.draw(5)); }
		ref["distance_to_node_radius_ratio"] = p["distance_to_node_radius_ratio"] = num(s.chance(1, 3) ? 1e9 : s.positive(1.5, 30));
	}
	static const std::vector<std::string> sn{"euler", "rk4", "midpoint", "midpoint-st", "trapeze", "adams", "bs", "rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkgl", "rklc"};
	sp["solver"] = sn[s.strat(sn.size())];
	sp["max_step"] = num(s.chance(1, 2) ? 0.01 : s.positive(1e-3, 0.02));
	sp["min_step"] = "1e-6";
	sp["error_threshold"] = s.chance(1, 2) ? "1e10" : "-1";	// never or always refined
	sp["max_recursion"] = std::to_string(s.draw(sp["solver"] == "rkfeagin10" ? 1 : 2));
	sp["substep_subdivisions"] = std::to_string(2 + s.draw(1));
	sp["rank"] = std::to_string(1 + s.draw(4));
	sp["starter_solver"] = s.chance(1, 2) ? "rk4" : s.chance(1, 2) ? "euler" : "rkck";
	sp["max_level"] = std::to_string(3 + s.draw(1));
	sp["refine_steps_count"] = std::to_string(1 + s.draw(1));
	if(s.chance(1, 3)) { sp["correction"] = "true"; }
	if(s.chance(1, 3)) { sp["clamp"] = "true"; }
	double dt0 = std::stod(sp["max_step"]);
	bodies b;
	gen_state(s, b, n);
	size_t box = 1 + s.draw(4), sb = s.chance(1, 2) ? 0 : s.draw(6);
	double tb = s.chance(1, 2) ? 0 : 0.25 * static_cast<double>(s.draw(9));
	std::vector<action> acts(1 + s.draw(3));
	for(auto& a : acts)
	{
		a.kind = static_cast<int>(s.draw(3));
		a.steps = 1 + s.draw(2);
		a.dt = s.chance(1, 2) ? dt0 : s.positive(1e-3, 0.02);
		a.dump = s.chance(1, 4) ? 0 : dt0 * static_cast<double>(1 + s.draw(2));
		a.check = s.chance(1, 3) ? 0 : dt0 * static_cast<double>(1 + s.draw(2));
		a.over = s.unit() * 0.6 + 0.2;
		if(a.kind == 3)
		{
			bodies q;
			gen_state(s, q, n);
			a.y = q.y();
		}
	}
	for(auto& q : p) { c.text << q.second << " "; }
	c.text << "n=" << n << " " << sp["solver"] << (sp.count("clamp") ? " clamp" : "") << (sp.count("correction") ? " correction" : "") << " actions " << acts.size();
	long mem0 = g_mem;
	double near = 1e300;
	size_t steps_done = 0;
	{
		world w[2];
		bool both = s.chance(1, 4);		// a second OpenCL engine lives next to it
		std::unique_ptr<nbody_engine> idle;
		nbody_data idle_d;
		if(both)
		{
			idle.reset(nbody_create_engine(params(p)));
			bodies q = b;
			for(auto& r : q.r) { r.x *= 3; }
			q.fill(idle_d);
			PBT_CHECK(idle && idle->init(&idle_d), "second engine not created");
		}
		for(int k = 0; k != 2; ++k)
		{
			b.fill(w[k].d);
			w[k].d.set_time(tb);
			w[k].d.set_step(sb);
			w[k].d.set_box_size(box);
			w[k].d.set_check_list("PLVE");
			w[k].e.reset(nbody_create_engine(params(k ? p : ref)));
			w[k].s.reset(nbody_create_solver(params(sp)));
			PBT_CHECK(w[k].e && w[k].s && w[k].e->init(&w[k].d), "engine " << (k ? p : ref)["engine"] << " or solver " << sp["solver"] << " not created");
			w[k].s->set_engine(w[k].e.get());
			w[k].snap("initial state");
			for(auto& a : acts)
			{
				switch(a.kind)
				{
				case 0:
					for(size_t i = 0; i != a.steps; ++i)
					{
						w[k].s->advise(a.dt);
						w[k].snap("state after a step");
						++steps_done;
						if(both && k) { idle->fcompute(0, idle->get_y(), idle->get_y()); }
					}
					break;
				case 1:
				{
					store st;
					st.f = &w[k].log;
					std::shared_ptr<watch> v(new watch);
					v->f = &w[k].log;
					w[k].s->add_check_visitor(v);
					int r = w[k].s->run(&w[k].d, &st, w[k].d.get_time() + dt0 * (static_cast<double>(a.steps) - 1 + a.over), a.dump, a.check);
					PBT_CHECK(r == 0, "run reports " << r);
					w[k].snap("state after a run");
					steps_done += a.steps;
					break;
				}
				case 2: w[k].s->reset(); break;
				case 3: load_state(w[k].e.get(), w[k].e->get_y(), a.y, false); break;
				}
				nbody_data out;
				b.fill(out);
				w[k].e->get_data(&out);
				vec o = flat(&out), y = read_y(w[k].e.get(), w[k].e->get_y(), 6 * n);
				for(size_t i = 0; i != n; ++i)
				{
					for(size_t q = 0; q != 6; ++q) { PBT_CHECK(o[6 * i + q] == y[q * n + i], "get_data returns another state than the buffer for body " << i); }
				}
				if(k == 0) { near = std::min(near, closest(y, n)); }
			}
		}
		if(near < 0.05) { throw pbt::discard(); }
		PBT_CHECK(w[0].log.size() == w[1].log.size(), p["engine"] << " gives " << w[1].log.size() << " frames and reports instead of " << w[0].log.size());
		double tol = bh ? 1e-10 : 1e-11;
		for(size_t f = 0; f != w[0].log.size(); ++f)
		{
			const frame& a = w[0].log[f];
			const frame& q = w[1].log[f];
			PBT_CHECK(a.what == q.what && a.y.size() == q.y.size(), "entry " << f << " is " << q.what << " instead of " << a.what);
			double scale = 1;
			for(double x : a.y) { scale = std::max(scale, std::fabs(x) < 1e6 ? std::fabs(x) : 1); }
			for(size_t i = 0; i != a.y.size(); ++i)
			{
				PBT_CHECK(std::fabs(a.y[i] - q.y[i]) <= tol * scale, p["engine"] << " with " << sp["solver"] << ", " << a.what << " (entry " << f << "): value " << i << " of " << a.y.size() << " is " << num(q.y[i]) << " instead of " << num(a.y[i]));
			}
		}
		w[1].s.reset();
		w[1].e.reset();
	}
	PBT_CHECK(g_mem == mem0, "device memory not returned: " << g_mem - mem0 << " references left");
	c.label(p["engine"]);
	c.label("solver " + sp["solver"]);
	if(sp.count("clamp")) { c.label("clamp"); }
	if(n > 1 && steps_done > 2) { c.nontrivial(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"run", p_run, 1500, 40000, 0, 120, false}}).main(argc, argv);
}
