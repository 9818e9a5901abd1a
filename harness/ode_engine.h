// Engine with a user supplied right-hand side (the documented way to use the solvers for another ODE)
#ifndef VERIF_ODE_ENGINE_H
#define VERIF_ODE_ENGINE_H

#include "common.h"
#include "nbody_engine_simple.h"
#include "nbody_engine_openmp.h"

template<class BASE>
class ode_engine_t : public BASE
{
public:
	typedef std::function<void(double t, const double* y, double* f)> rhs_t;
	rhs_t				rhs;
	std::vector<double>	times;		// every evaluation time
	bool				record;
	std::function<void(double t, const double* y)> probe;
	ode_engine_t() : record(false) {}
	void fcompute(const nbcoord_t& t, const nbody_engine::memory* y, nbody_engine::memory* f) override
	{
		size_t n = this->problem_size();
		m_y.resize(std::max(n, y->size() / sizeof(double)));
		m_f.assign(std::max(n, f->size() / sizeof(double)), 0.0);
		this->read_buffer(m_y.data(), y);
		if(record) { times.push_back(t); }
		if(probe) { probe(t, m_y.data()); }
		this->advise_compute_count();
		rhs(t, m_y.data(), m_f.data());
		this->write_buffer(f, m_f.data());
	}
	void set_state(const std::vector<double>& v)
	{
		std::vector<double> w(v);
		w.resize(std::max(w.size(), this->get_y()->size() / sizeof(double)), 0.0);
		this->write_buffer(this->get_y(), w.data());
	}
	std::vector<double> state()
	{
		return read_y(this, this->get_y(), this->problem_size());
	}
private:
	std::vector<double> m_y, m_f;
};

typedef ode_engine_t<nbody_engine_simple> ode_engine;

inline void dummy_bodies(nbody_data& d, size_t n)
{
	for(size_t i = 0; i != n; ++i) { d.add_body(nbvertex_t(i + 1, 2, 3), nbvertex_t(4, 5, 6), 1, nbcolor_t(1, 1, 1, 1)); }
}

#endif
