// C26: OpenCL kernels: no data race between work-items, no access outside a buffer; the simulator watches every access of generated histories
#include "common.h"
#include <fcntl.h>
#include <fstream>

typedef std::map<std::string, std::string> pmap;

// what the simulator reported since the last call
static std::string reports(pbt::ctx& c)
{
	std::ifstream f(c.workdir + "/simulator.log");
	std::string l, out;
	int take = 0;
	while(std::getline(f, l))
	{
		if(l.find("data race") != std::string::npos || l.find("Invalid read") != std::string::npos || l.find("Invalid write") != std::string::npos || l.find("barrier") != std::string::npos) { take = std::max(take, 3); }
		if(take > 0 && out.size() < 600)
		{
			size_t b = l.find_first_not_of("\t ");
			if(b != std::string::npos) { out += l.substr(b) + "; "; --take; }
			else { --take; }
		}
	}
	return out;
}

static void p_kernels(pbt::source& s, pbt::ctx& c)
{
	fflush(stderr);
	int fd = open((c.workdir + "/simulator.log").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
	PBT_CHECK(fd >= 0, "no log file");
	int old = dup(2);
	dup2(fd, 2);
	close(fd);
	struct back_t { int fd; ~back_t() { fflush(stderr); dup2(fd, 2); close(fd); } } back{old};

	pmap p;
	bool bh = s.chance(3, 5);
	size_t bs = static_cast<size_t>(1) << s.draw(6);
	size_t n = bs * s.size(1, std::max<size_t>(1, (s.chance(1, 8) ? 192 : 48) / bs));
	p["engine"] = bh ? "opencl_bh" : "opencl";
	p["block_size"] = std::to_string(bs);
	if(s.chance(1, 2)) { p["device"] = gen_devices(s, c, n, bs); }
	if(bh)
	{
		p["tree_layout"] = s.chance(1, 2) ? "heap" : "heap_stackless";
		p["traverse_type"] = s.chance(1, 2) ? "cycle" : "nested_tree";
		p["tree_build_rate"] = std::to_string(s.draw(6));
		p["distance_to_node_radius_ratio"] = num(s.positive(0.5, 20));
	}
	std::ostringstream id;
	for(auto& q : p) { id << q.second << " "; }
	id << "n=" << n << ": ";
	bodies b = gen_bodies(s, c, n, 10);
	nbody_data d;
	b.fill(d);
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(p)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	size_t bytes = sizeof(nbcoord_t) * e->problem_size();
	std::vector<double> y = b.y();
	nbody_engine::memory_array m;
	for(int k = 0; k != 5; ++k)
	{
		m.push_back(e->create_buffer(bytes));
		PBT_CHECK(m.back() != nullptr, "buffer not created");
		e->write_buffer(m.back(), y.data());
	}
	auto pick = [&]() { return m[s.draw(4)]; };
	auto other = [&](nbody_engine::memory * a) { nbody_engine::memory* q = pick(); for(size_t k = 0; q == a; ++k) { q = m[k]; } return q; };
	auto terms = [&](nbody_engine::memory * a, nbody_engine::memory * a2, nbody_engine::memory_array & t, std::vector<nbcoord_t>& w)
	{
		for(size_t k = s.draw(4); k; --k)
		{
			nbody_engine::memory* q = pick();
			if(q == a || q == a2) { continue; }
			t.push_back(q);
			w.push_back(s.chance(1, 4) ? 0 : s.number(1));
		}
	};
	size_t ops = 1 + s.draw(5), computed = 0;
	for(size_t k = 0; k != ops; ++k)
	{
		nbody_engine::memory* a = pick();
		switch(k == 0 ? 0 : s.draw(11))
		{
		case 0: case 1: case 2: case 3:
		{
			bool own = s.chance(1, 2);
			nbody_engine::memory* q = own ? e->get_y() : other(a);
			if(!own || s.chance(1, 2))
			{
				bodies b2 = gen_bodies(s, c, n, 10);
				y = b2.y();
				load_state(e.get(), q, y, s.chance(1, 2));
			}
			if(s.chance(2, 3)) { e->set_step(e->get_step() + 1); }
			id << "fcompute at step " << e->get_step() << ", ";
			e->fcompute(s.number(2), q, a);
			++computed;
			break;
		}
		case 4: id << "clamp, "; e->clamp(a, s.positive(1, 20)); break;
		case 5: id << "copy, "; e->copy_buffer(a, other(a)); break;
		case 6: id << "fill, "; e->fill_buffer(a, s.number(3)); break;
		case 7: id << "fmadd_inplace, "; e->fmadd_inplace(a, s.chance(1, 4) ? a : other(a), s.number(1)); break;
		case 8: id << "fmadd, "; e->fmadd(a, pick(), pick(), s.number(1)); break;
		case 9:
		{
			nbody_engine::memory_array t;
			std::vector<nbcoord_t> w;
			bool corr = s.chance(1, 2);
			nbody_engine::memory* a2 = corr ? other(a) : nullptr;
			terms(a, a2, t, w);
			if(t.empty()) { break; }
			id << (corr ? "fmaddn_corr " : "fmaddn_inplace ") << t.size() << ", ";
			if(corr) { e->fmaddn_corr(a, a2, t, w.data(), w.size()); }
			else { e->fmaddn_inplace(a, t, w.data(), w.size()); }
			break;
		}
		case 10:
		{
			nbody_engine::memory_array t;
			std::vector<nbcoord_t> w;
			terms(a, nullptr, t, w);
			nbody_engine::memory* base = s.chance(1, 3) ? nullptr : pick();
			if(t.empty()) { break; }
			id << "fmaddn " << t.size() << ", ";
			e->fmaddn(a, base, t, w.data(), w.size());
			break;
		}
		case 11:
		{
			nbcoord_t r = 0;
			id << "fmaxabs, ";
			e->fmaxabs(a, r);
			break;
		}
		}
		// values stay in a usable range
		std::vector<double> v = read_y(e.get(), a, 6 * n);
		for(double x : v) { if(!(std::fabs(x) < 1e100)) { e->write_buffer(a, y.data()); break; } }
	}
	if(s.chance(1, 6))
	{
		static const char* const sv[] = {"euler", "rk4", "midpoint-st", "adams", "rkf", "bs"};
		std::unique_ptr<nbody_solver> sol(nbody_create_solver(params({{"solver", sv[s.draw(5)]}, {"rank", "3"}, {"max_level", "3"}, {"max_recursion", "1"}, {"substep_subdivisions", "2"}, {"error_threshold", "1e-3"}})));
		sol->set_engine(e.get());
		e->write_buffer(e->get_y(), b.y().data());
		id << sol->type_name() << ", ";
		for(size_t k = 1 + s.draw(1); k; --k) { sol->advise(1e-3); }
		++computed;
	}
	for(auto q : m) { e->free_buffer(q); }
	e.reset();
	std::string bad = reports(c);
	PBT_CHECK(bad.empty(), id.str() << "the simulator reports: " << bad);
	c.label(p["engine"] + (bh ? " " + p["tree_layout"] + " " + p["traverse_type"] : ""));
	if(n & (n - 1)) { c.label("count not power of two"); }
	if(computed && n > 1) { c.nontrivial(); }
	if(c.verbose) { c.text << id.str(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	return pbt::runner({{"kernels", p_kernels, 2000, 60000, 0, 120, false}}).main(argc, argv);
}
