// C05: vector operations of every engine, generated sequences over a pool of buffers against a long double model
#include "common.h"

typedef std::vector<double> vec;

static std::vector<std::map<std::string, std::string>> engines()
{
	if(ocl()) { return {{{"engine", "opencl"}}, {{"engine", "opencl_bh"}}}; }
	if(cuda()) { return {{{"engine", "cuda"}}, {{"engine", "cuda_bh"}}, {{"engine", "cuda_bh_tex"}}}; }
	return {{{"engine", "simple"}}, {{"engine", "openmp"}}, {{"engine", "block"}}, {{"engine", "ah"}}, {{"engine", "simple_bh"}}};
}

static double gen_value(pbt::source& s, uint64_t kind)
{
	switch(kind)
	{
	case 0: return static_cast<double>(s.range(-4, 4));
	case 1: return s.number(10);
	case 2: return std::ldexp(2 * s.unit() - 1, static_cast<int>(s.range(-30, 30)));
	default: return s.any_finite();
	}
}

static double gen_coeff(pbt::source& s)
{
	switch(s.draw(7))
	{
	case 0: return 0;
	case 1: return 1;
	case 2: return -1;
	case 3: return static_cast<double>(s.range(-3, 3)) / 2;
	case 4: return -0.0;
	case 5: return std::ldexp(2 * s.unit() - 1, static_cast<int>(s.range(-60, 60)));
	default: return s.number(2);
	}
}

// expected value of one element: sum of products, each with at most one rounding more than exact
struct expect
{
	ld sum, mag;
	size_t terms;
	bool skip;
	expect() : sum(0), mag(0), terms(0), skip(false) {}
	void add(double a, double c)
	{
		if(c == 0 && std::isfinite(a)) { ++terms; return; }
		ld t = static_cast<ld>(a) * c;
		sum += t;
		mag += fabsl(t);
		++terms;
		// out of the range where the operation is defined without overflow
		if(!std::isfinite(a) || fabsl(t) > 1e307L) { skip = true; }
	}
	bool ok(double v) const
	{
		if(skip || mag > 1e307L) { return true; }
		ld tol = mag * (terms + 2) * 1.2e-16L + (terms + 1) * 1e-323L;
		return fabsl(v - sum) <= tol;
	}
};

static void p_ops(pbt::source& s, pbt::ctx& c)
{
	auto list = engines();
	auto ep = list[s.strat(list.size())];
	size_t n;
	if(cuda()) { n = gen_cuda(s, c, ep); }
	else if(ocl())
	{
		static const int blocks[] = {1, 2, 4, 8, 16, 32, 64};
		int bs = blocks[s.draw(6)];
		n = bs * s.size(1, std::max<size_t>(1, 128 / bs));
		ep["block_size"] = std::to_string(bs);
		if(n % (4 * bs) == 0 && s.chance(1, 4)) { ep["device"] = "0:0,0,0,0"; c.label("four devices"); }
		else if(n % (2 * bs) == 0 && s.chance(1, 3)) { ep["device"] = s.chance(1, 3) ? "0:0;0:0" : "0:0,0"; c.label("two devices " + ep["device"]); }
	}
	else
	{
		n = s.size(1, 70);
		if(s.chance(1, 60)) { n = s.chance(1, 10) ? 1500 + s.draw(12000) : 100 + s.draw(1400); c.label("large count"); }
		omp_set_num_threads(1 + static_cast<int>(s.draw(3)));
	}
	nbody_data d;
	for(size_t i = 0; i != n; ++i) { d.add_body(nbvertex_t(i, 0, 1), nbvertex_t(0, 0, 0), 1, nbcolor_t(1, 1, 1, 1)); }
	std::unique_ptr<nbody_engine> e(nbody_create_engine(params(ep)));
	PBT_CHECK(e != nullptr && e->init(&d), "engine not created");
	const size_t size = e->problem_size();
	PBT_CHECK(size == 6 * n, "problem size " << size << " for " << n << " bodies");
	const size_t nbuf = 3 + s.draw(3);
	nbody_engine::memory_array pool = e->create_buffers(size * sizeof(double), nbuf);
	PBT_CHECK(pool.size() == nbuf, "create_buffers returned " << pool.size() << " buffers instead of " << nbuf);
	std::vector<vec> m(nbuf, vec(size));
	uint64_t kind = s.draw(3);
	auto fresh = [&]()
	{
		vec v(size);
		size_t distinct = std::min<size_t>(size, 24);
		for(size_t i = 0; i != distinct; ++i) { v[i] = gen_value(s, kind); }
		for(size_t i = distinct; i != size; ++i) { v[i] = v[(i * 7) % distinct] * (1 + (i % 5)) * 0.125; }
		size_t rot = s.draw(size - 1);
		std::rotate(v.begin(), v.begin() + static_cast<long>(rot), v.end());
		return v;
	};
	for(size_t k = 0; k != nbuf; ++k)
	{
		PBT_CHECK(pool[k]->size() == size * sizeof(double), "buffer size " << pool[k]->size());
		m[k] = fresh();
		e->write_buffer(pool[k], m[k].data());
	}
	size_t ops = s.size(1, ocl() ? 10 : 14);
	std::ostringstream hist;
	hist.precision(9);
	size_t multi = 0;
	for(size_t op = 0; op != ops; ++op)
	{
		size_t a = s.draw(nbuf - 1), b = s.draw(nbuf - 1), x = s.draw(nbuf - 1);
		std::vector<expect> w;
		bool exact = false;
		vec want;
		std::ostringstream name;
		name.precision(17);
		uint64_t what = s.draw(8);
		size_t dst = a;
		switch(what)
		{
		case 0:
			name << "write(" << a << ")";
			want = fresh();
			exact = true;
			e->write_buffer(pool[a], want.data());
			break;
		case 1:
			if(a == b) { b = (a + 1) % nbuf; }
			name << "copy(" << a << "," << b << ")";
			want = m[b];
			exact = true;
			e->copy_buffer(pool[a], pool[b]);
			break;
		case 2:
		{
			double v = gen_value(s, kind);
			name << "fill(" << a << "," << v << ")";
			want.assign(size, v);
			exact = true;
			e->fill_buffer(pool[a], v);
			break;
		}
		case 3:
		{
			double k = gen_coeff(s);
			name << "fmadd_inplace(" << a << "," << b << "," << k << ")";
			w.resize(size);
			for(size_t i = 0; i != size; ++i) { w[i].add(m[a][i], 1); w[i].add(m[b][i], k); }
			e->fmadd_inplace(pool[a], pool[b], k);
			break;
		}
		case 4:
		{
			double k = gen_coeff(s);
			name << "fmadd(" << a << "," << b << "," << x << "," << k << ")";
			w.resize(size);
			for(size_t i = 0; i != size; ++i) { w[i].add(m[b][i], 1); w[i].add(m[x][i], k); }
			e->fmadd(pool[a], pool[b], pool[x], k);
			break;
		}
		case 5:
		case 6:
		{
			// terms never contain the destination
			size_t nv = s.chance(1, 8) ? s.draw(48) : s.draw(5), csize = s.draw(nv);
			bool bad = s.chance(1, 10);
			if(bad) { csize = nv + 1 + s.draw(2); }
			nbody_engine::memory_array v;
			std::vector<size_t> idx;
			for(size_t k = 0; k != nv; ++k)
			{
				size_t q = s.draw(nbuf - 2);
				if(q >= a) { ++q; }
				v.push_back(pool[q]);
				idx.push_back(q);
			}
			vec co(csize + 3, 0);
			bool zeros = s.chance(1, 6);
			for(size_t k = 0; k != csize; ++k) { co[k] = zeros ? 0 : gen_coeff(s); }
			bool in_place = what == 5, null_base = !in_place && s.chance(1, 3);
			name << (in_place ? "fmaddn_inplace(" : "fmaddn(") << a << ",";
			if(!in_place) { if(null_base) { name << "NULL,"; } else { name << b << ","; } }
			name << "{";
			for(size_t k = 0; k != nv; ++k) { name << idx[k] << " "; }
			name << "},{";
			for(size_t k = 0; k != csize; ++k) { name << co[k] << " "; }
			name << "})";
			if(bad)
			{
				want = m[a];
				exact = true;
			}
			else
			{
				w.resize(size);
				for(size_t i = 0; i != size; ++i)
				{
					if(in_place) { w[i].add(m[a][i], 1); }
					else if(!null_base) { w[i].add(m[b][i], 1); }
					for(size_t k = 0; k != csize; ++k) { if(co[k] != 0) { w[i].add(m[idx[k]][i], co[k]); } }
				}
				if(csize > 1) { ++multi; }
			}
			if(in_place) { e->fmaddn_inplace(pool[a], v, co.data(), csize); }
			else { e->fmaddn(pool[a], null_base ? nullptr : pool[b], v, co.data(), csize); }
			break;
		}
		case 7:
		{
			double r = -7;
			bool fin = true;
			double mx = 0;
			for(double q : m[a]) { mx = std::max(mx, std::fabs(q)); if(std::isnan(q)) { fin = false; } }
			name << "fmaxabs(" << a << ")";
			e->fmaxabs(pool[a], r);
			if(fin) { PBT_CHECK(r == mx, ep["engine"] << ": " << hist.str() << name.str() << " returned " << r << ", largest absolute value is " << mx << " (" << n << " bodies)"); }
			dst = nbuf;
			break;
		}
		default:
		{
			// a buffer of another size is filled, written and read as a whole
			size_t other = ocl() || cuda() ? n : 1 + s.draw(3 * size);
			nbody_engine::memory* odd = e->create_buffer(other * sizeof(double));
			PBT_CHECK(odd != nullptr && odd->size() == other * sizeof(double), ep["engine"] << ": buffer of " << other << " numbers has size " << odd->size());
			vec ov(other);
			for(size_t i = 0; i != other; ++i) { ov[i] = 0.5 * static_cast<double>(i) - 3; }
			e->write_buffer(odd, ov.data());
			PBT_CHECK(same_bits(ov, read_y(e.get(), odd, other)), ep["engine"] << ": buffer of " << other << " numbers does not read back as written (" << n << " bodies)");
			e->fill_buffer(odd, -2.5);
			PBT_CHECK(same_bits(vec(other, -2.5), read_y(e.get(), odd, other)), ep["engine"] << ": filling a buffer of " << other << " numbers (" << n << " bodies)");
			e->free_buffer(odd);
			// buffers created, freed and created again
			nbody_engine::memory_array t = e->create_buffers(size * sizeof(double), 1 + s.draw(2));
			for(auto q : t) { e->fill_buffer(q, 12345); }
			size_t left = t.size();
			e->free_buffers(t);
			PBT_CHECK(left > 0 && t.empty(), "free_buffers left buffers in the array");
			name << "temp";
			dst = nbuf;
			break;
		}
		}
		hist << name.str() << " ";
		c.label("op " + name.str().substr(0, name.str().find('(')));
		for(size_t k = 0; k != nbuf; ++k)
		{
			vec got = read_y(e.get(), pool[k], size);
			if(k != dst)
			{
				PBT_CHECK(same_bits(got, m[k]), ep["engine"] << ": " << hist.str() << " changed buffer " << k);
				continue;
			}
			for(size_t i = 0; i != size; ++i)
			{
				if(exact)
				{
					PBT_CHECK(memcmp(&got[i], &want[i], 8) == 0, ep["engine"] << ": " << hist.str() << ": element " << i << "/" << size << " is " << got[i]
							  << ", expected " << want[i]);
				}
				else
				{
					PBT_CHECK(w[i].ok(got[i]), ep["engine"] << ": " << hist.str() << ": element " << i << "/" << size << " is " << got[i]
							  << ", expected " << static_cast<double>(w[i].sum));
				}
			}
			m[k] = got;
		}
	}
	e->free_buffers(pool);
	c.label(ep["engine"]);
	if(ops >= 3 && multi) { c.nontrivial(); }
	if(c.verbose) { c.text << ep["engine"] << " bodies=" << n << " buffers=" << nbuf << " value kind " << kind << " " << hist.str(); }
}

int main(int argc, char** argv)
{
	quiet_qt();
	std::vector<pbt::prop> cpu{{"ops", p_ops, 60000, 3000000, 0, 30, false}};
	std::vector<pbt::prop> gpu{{"opencl_ops", p_ops, 250, 6000, 0, 120, false}};
	std::vector<pbt::prop> cu{{"cuda_ops", p_ops, 1500, 60000, 0, 120, false}};
	return pbt::runner(cuda() ? cu : ocl() ? gpu : cpu).main(argc, argv);
}
