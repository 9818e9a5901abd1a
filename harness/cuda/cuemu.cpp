#include "cuda_runtime.h"
#include "nccl.h"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <mutex>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

struct cuemu_stream { int device; };
struct cuemu_comm { int rank, size, device; };

namespace
{
const int DEVICES = 8;
const size_t ARENA = static_cast<size_t>(96) << 20;
const size_t GAP = 256;
const uint64_t POISON = 0x7ff4deadbeefc0deULL;	// a NaN; as an index far outside of everything

std::recursive_mutex g_lock;
thread_local int g_device = 0;
thread_local cudaError_t g_error = cudaSuccess;
int g_lazy = 0;

struct rng_t
{
	uint64_t s;
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
	size_t below(size_t n) { return n < 2 ? 0 : (next() >> 33) % n; }
};

struct device_t
{
	char*	base;
	size_t	top;
	int		open;
	std::map<char*, size_t>	live;
	std::multimap<size_t, char*> freed;
	std::vector<std::function<void()>> queue;
	rng_t	rng;
	device_t() : base(nullptr), top(0), open(0), rng{1} {}
};
device_t g_dev[DEVICES];

struct tex_t { char* p; size_t size; cudaChannelFormatDesc d; int device; };
std::vector<tex_t> g_tex(1);
size_t g_handles = 0;	// streams and communicators

[[noreturn]] void die(const char* what)
{
	fprintf(stderr, "CUDA model: %s\n", what);
	fflush(stderr);
	_exit(45);
}

void map_device(device_t& d)
{
	if(d.base) { return; }
	d.base = static_cast<char*>(mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if(d.base == MAP_FAILED) { die("no address space"); }
}

void poison(char* p, size_t n)
{
	while(n >= 8) { memcpy(p, &POISON, 8); p += 8; n -= 8; }
	memcpy(p, &POISON, n);
}

// memory of a device is accessible only while something runs on that device
struct mem_access
{
	int d;
	explicit mem_access(int _d) : d(_d)
	{
		map_device(g_dev[d]);
		if(g_dev[d].open++ == 0) { mprotect(g_dev[d].base, std::max<size_t>(4096, (g_dev[d].top + 8191) & ~static_cast<size_t>(4095)), PROT_READ | PROT_WRITE); }
	}
	~mem_access()
	{
		if(--g_dev[d].open == 0) { mprotect(g_dev[d].base, std::max<size_t>(4096, (g_dev[d].top + 8191) & ~static_cast<size_t>(4095)), PROT_NONE); }
	}
};

int owner(const void* p)
{
	for(int d = 0; d != DEVICES; ++d)
	{
		if(g_dev[d].base && p >= g_dev[d].base && p < g_dev[d].base + ARENA) { return d; }
	}
	return -1;
}

bool inside(const void* _p, size_t n)
{
	int d = owner(_p);
	if(d < 0) { return true; }
	char* p = const_cast<char*>(static_cast<const char*>(_p));
	auto i = g_dev[d].live.upper_bound(p);
	if(i == g_dev[d].live.begin()) { return false; }
	--i;
	return p >= i->first && p + n <= i->first + i->second;
}

void check_gaps(int d)
{
	for(auto& a : g_dev[d].live)
	{
		const char* e = a.first + a.second;
		for(size_t k = 0; k + 8 <= GAP; k += 8)
		{
			if(memcmp(e + k, &POISON, 8) != 0) { die("write outside of an allocation"); }
		}
	}
}

void flush(int d)
{
	std::vector<std::function<void()>> q;
	q.swap(g_dev[d].queue);
	for(auto& f : q) { f(); }
}

void enqueue(int d, const std::function<void()>& f)
{
	g_dev[d].queue.push_back(f);
	if(g_lazy == 0 || (g_lazy == 1 && g_dev[d].rng.below(2))) { flush(d); }
}

cudaError_t fail(cudaError_t e)
{
	g_error = e;
	return e;
}

// ---------------------------------------------------------------- threads of a block

struct fiber
{
	ucontext_t	ctx;
	std::unique_ptr<char[]> stack;
	cuemu::thread_state st;
	bool	waiting;
};

std::vector<std::unique_ptr<fiber>> g_idle;
ucontext_t	g_main;
fiber*		g_fiber = nullptr;
const std::function<void()>* g_body = nullptr;
std::vector<unsigned> g_order;
size_t		g_next = 0, g_finished = 0;
dim3		g_bdim, g_gdim;
uint3		g_bid;
char*		g_shared = nullptr;

void fiber_main()
{
	for(;;)
	{
		fiber* f = g_fiber;
		while(g_next < g_order.size())
		{
			unsigned t = g_order[g_next++];
			f->st.tid = uint3{t % g_bdim.x, t / g_bdim.x % g_bdim.y, t / (g_bdim.x * g_bdim.y)};
			f->st.bid = g_bid;
			f->st.bdim = g_bdim;
			f->st.gdim = g_gdim;
			cuemu::current = &f->st;
			(*g_body)();
			++g_finished;
			f = g_fiber;
		}
		f->waiting = false;
		swapcontext(&f->ctx, &g_main);
	}
}

void resume(fiber* f)
{
	g_fiber = f;
	cuemu::current = &f->st;
	f->waiting = false;
	swapcontext(&g_main, &f->ctx);
	cuemu::current = nullptr;
}

template<class T> void reorder(std::vector<T>& v, rng_t& r, int how)
{
	if(how == 1) { std::reverse(v.begin(), v.end()); }
	else if(how == 2) { for(size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[r.below(i)]); } }
}

void run_kernel(int dev, dim3 grid, dim3 block, size_t shared, const std::function<void()>& body)
{
	mem_access a(dev);
	rng_t& r = g_dev[dev].rng;
	int how = static_cast<int>(r.below(3));
	std::vector<unsigned> blocks(grid.x * grid.y * grid.z);
	for(size_t i = 0; i != blocks.size(); ++i) { blocks[i] = static_cast<unsigned>(i); }
	reorder(blocks, r, how);
	size_t threads = block.x * block.y * block.z;
	std::vector<uint64_t> sh(shared / 8 + 8);
	g_body = &body;
	g_bdim = block;
	g_gdim = grid;
	g_shared = reinterpret_cast<char*>(sh.data());
	for(unsigned b : blocks)
	{
		poison(g_shared, sh.size() * 8);
		g_bid = uint3{b % grid.x, b / grid.x % grid.y, b / (grid.x * grid.y)};
		g_order.resize(threads);
		for(size_t i = 0; i != threads; ++i) { g_order[i] = static_cast<unsigned>(i); }
		reorder(g_order, r, how);
		g_next = g_finished = 0;
		std::vector<fiber*> wait;
		while(g_next < threads)
		{
			if(g_idle.empty())
			{
				std::unique_ptr<fiber> f(new fiber());
				f->stack.reset(new char[65536]);
				getcontext(&f->ctx);
				f->ctx.uc_stack.ss_sp = f->stack.get();
				f->ctx.uc_stack.ss_size = 65536;
				f->ctx.uc_link = nullptr;
				makecontext(&f->ctx, fiber_main, 0);
				g_idle.push_back(std::move(f));
			}
			fiber* f = g_idle.back().release();
			g_idle.pop_back();
			resume(f);
			if(f->waiting) { wait.push_back(f); }
			else { g_idle.emplace_back(f); }
		}
		while(!wait.empty())
		{
			if(g_finished != 0) { die("a barrier not reached by all threads of the block"); }
			std::vector<fiber*> w;
			w.swap(wait);
			reorder(w, r, how == 1 ? 0 : how);	// 'wait' is in the order chosen before
			for(fiber* f : w)
			{
				resume(f);
				if(f->waiting) { wait.push_back(f); }
				else { g_idle.emplace_back(f); }
			}
		}
		for(size_t k = (shared + 7) / 8; k < sh.size(); ++k)
		{
			if(sh[k] != POISON) { die("write outside of the shared memory"); }
		}
	}
	check_gaps(dev);
}

void copy2d(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h)
{
	int a = owner(d), b = owner(s);
	std::unique_ptr<mem_access> x(a >= 0 ? new mem_access(a) : nullptr), y(b >= 0 ? new mem_access(b) : nullptr);
	for(size_t k = 0; k != h; ++k) { memmove(static_cast<char*>(d) + k * dp, static_cast<const char*>(s) + k * sp, w); }
}

cudaError_t copy(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind kind, cudaStream_t st, bool async)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	if(w == 0 || h == 0) { return cudaSuccess; }
	int a = owner(d), b = owner(s);
	if(kind == cudaMemcpyDefault) { kind = a < 0 ? (b < 0 ? cudaMemcpyHostToHost : cudaMemcpyDeviceToHost) : (b < 0 ? cudaMemcpyHostToDevice : cudaMemcpyDeviceToDevice); }
	bool ad = kind == cudaMemcpyHostToDevice || kind == cudaMemcpyDeviceToDevice, bd = kind == cudaMemcpyDeviceToHost || kind == cudaMemcpyDeviceToDevice;
	if(ad != (a >= 0) || bd != (b >= 0)) { return fail(cudaErrorInvalidValue); }
	if(!inside(d, dp * (h - 1) + w) || !inside(s, sp * (h - 1) + w)) { return fail(cudaErrorInvalidValue); }
	int q = st ? st->device : g_device;
	if(kind == cudaMemcpyHostToDevice)
	{
		// pageable source: staged before the call returns
		std::shared_ptr<std::vector<char>> tmp(new std::vector<char>(w * h));
		for(size_t k = 0; k != h; ++k) { memcpy(tmp->data() + k * w, static_cast<const char*>(s) + k * sp, w); }
		enqueue(q, [ = ]() { copy2d(d, dp, tmp->data(), w, w, h); });
		if(!async) { flush(q); }
		return cudaSuccess;
	}
	enqueue(q, [ = ]() { copy2d(d, dp, s, sp, w, h); });
	if(kind != cudaMemcpyDeviceToDevice) { flush(q); }	// pageable destination: complete on return
	return cudaSuccess;
}
}

namespace cuemu
{
thread_state* current = nullptr;

thread_state& self()
{
	if(!current) { die("device code outside of a kernel"); }
	return *current;
}

void* dynamic_shared() { return g_shared; }

void barrier()
{
	fiber* f = g_fiber;
	f->waiting = true;
	swapcontext(&f->ctx, &g_main);
	current = &f->st;
}

void launch(dim3 grid, dim3 block, size_t shared, cudaStream_t s, const std::function<void()>& body)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	uint64_t t = static_cast<uint64_t>(block.x) * block.y * block.z;
	if(t == 0 || t > 1024 || static_cast<uint64_t>(grid.x) * grid.y * grid.z == 0 || shared > 49152)
	{
		g_error = cudaErrorInvalidConfiguration;
		return;
	}
	if(s && s->device != g_device)
	{
		g_error = cudaErrorInvalidResourceHandle;
		return;
	}
	int d = g_device;
	enqueue(d, [ = ]() { run_kernel(d, grid, block, shared, body); });
}

void synchronous(const std::function<void()>& f)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	int d = g_device;
	flush(d);
	{
		mem_access a(d);
		f();
		check_gaps(d);
	}
}

bool tex_read(cudaTextureObject_t t, long index, size_t elem, void* out)
{
	if(t == 0 || t >= g_tex.size() || g_tex[t].p == nullptr) { die("fetch from a texture that does not exist"); }
	const tex_t& x = g_tex[t];
	size_t texel = static_cast<size_t>(x.d.x + x.d.y + x.d.z + x.d.w) / 8;
	if(texel != elem) { die("fetch of another type than that of the texture"); }
	if(index < 0 || static_cast<size_t>(index) >= x.size / texel) { return false; }	// reads zero
	memcpy(out, x.p + static_cast<size_t>(index) * texel, elem);
	return true;
}

void reset(uint64_t seed, int lazy)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	g_lazy = lazy;
	g_device = 0;
	g_error = cudaSuccess;
	g_tex.resize(1);
	g_handles = 0;
	for(int d = 0; d != DEVICES; ++d)
	{
		g_dev[d].queue.clear();
		g_dev[d].live.clear();
		g_dev[d].freed.clear();
		g_dev[d].top = 0;
		g_dev[d].rng.s = (seed + 1) * 0x9E3779B97F4A7C15ULL + static_cast<uint64_t>(d) * 77 + 1;
	}
}

size_t live_allocations()
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	size_t n = 0;
	for(auto& d : g_dev) { n += d.live.size(); }
	for(auto& t : g_tex) { n += t.p ? 1 : 0; }
	return n + g_handles;
}
}

const char* cudaGetErrorString(cudaError_t) { return "error"; }
cudaError_t cudaGetLastError() { cudaError_t e = g_error; g_error = cudaSuccess; return e; }
cudaError_t cudaPeekAtLastError() { return g_error; }
cudaError_t cudaGetDeviceCount(int* n) { *n = DEVICES; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int d)
{
	if(d < 0 || d >= DEVICES) { return fail(cudaErrorInvalidDevice); }
	memset(p, 0, sizeof *p);
	strcpy(p->name, "model");
	return cudaSuccess;
}
cudaError_t cudaSetDevice(int d)
{
	if(d < 0 || d >= DEVICES) { return fail(cudaErrorInvalidDevice); }
	g_device = d;
	return cudaSuccess;
}
cudaError_t cudaGetDevice(int* d) { *d = g_device; return cudaSuccess; }
cudaError_t cudaDeviceSynchronize()
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	flush(g_device);
	return cudaSuccess;
}
cudaError_t cudaStreamCreate(cudaStream_t* s)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	*s = new cuemu_stream{g_device};
	++g_handles;
	return cudaSuccess;
}
cudaError_t cudaStreamDestroy(cudaStream_t s)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	if(!s) { return fail(cudaErrorInvalidResourceHandle); }
	delete s;
	--g_handles;
	return cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t s)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	flush(s ? s->device : g_device);
	return cudaSuccess;
}
cudaError_t cuemu_malloc(void** p, size_t size)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	device_t& d = g_dev[g_device];
	map_device(d);
	*p = nullptr;
	size_t need = (std::max<size_t>(size, 1) + 255) / 256 * 256 + GAP;
	char* q;
	auto i = d.freed.find(need);
	if(i != d.freed.end())
	{
		q = i->second;
		d.freed.erase(i);
	}
	else
	{
		if(d.top + need > ARENA - 16384) { return fail(cudaErrorMemoryAllocation); }
		q = d.base + d.top;
		d.top += need;
	}
	d.live[q] = size;
	mem_access a(g_device);
	poison(q, size / 8 * 8);
	poison(q + size, GAP);
	*p = q;
	return cudaSuccess;
}
cudaError_t cudaFree(void* p)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	if(!p) { return cudaSuccess; }
	int d = owner(p);
	if(d < 0 || !g_dev[d].live.count(static_cast<char*>(p))) { die("free of something that is not allocated"); }
	flush(d);
	size_t size = g_dev[d].live[static_cast<char*>(p)];
	size_t need = (std::max<size_t>(size, 1) + 255) / 256 * 256 + GAP;
	mem_access a(d);
	poison(static_cast<char*>(p), need);
	g_dev[d].live.erase(static_cast<char*>(p));
	g_dev[d].freed.insert({need, static_cast<char*>(p)});
	return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { return copy(d, n, s, n, n, 1, k, nullptr, false); }
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st) { return copy(d, n, s, n, n, 1, k, st, true); }
cudaError_t cudaMemcpy2D(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k)
{
	if(w > dp || w > sp) { return fail(cudaErrorInvalidValue); }
	return copy(d, dp, s, sp, w, h, k, nullptr, false);
}
cudaError_t cudaMemcpy2DAsync(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k, cudaStream_t st)
{
	if(w > dp || w > sp) { return fail(cudaErrorInvalidValue); }
	return copy(d, dp, s, sp, w, h, k, st, true);
}
cudaError_t cudaMemcpyPeer(void* d, int, const void* s, int, size_t n) { return copy(d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, nullptr, false); }
cudaError_t cudaMemcpyPeerAsync(void* d, int, const void* s, int, size_t n, cudaStream_t st) { return copy(d, n, s, n, n, 1, cudaMemcpyDeviceToDevice, st, true); }
cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t st)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	int o = owner(d);
	if(o < 0 || !inside(d, n)) { return fail(cudaErrorInvalidValue); }
	enqueue(st ? st->device : g_device, [ = ]() { mem_access a(o); memset(d, v, n); });
	return cudaSuccess;
}
cudaError_t cudaMemset(void* d, int v, size_t n) { return cudaMemsetAsync(d, v, n, nullptr); }
cudaError_t cudaCreateTextureObject(cudaTextureObject_t* t, const cudaResourceDesc* r, const cudaTextureDesc* td, const cudaResourceViewDesc*)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	const cudaChannelFormatDesc& c = r->res.linear.desc;
	int d = owner(r->res.linear.devPtr);
	int bits = c.x + c.y + c.z + c.w;
	if(r->resType != cudaResourceTypeLinear || d != g_device || !inside(r->res.linear.devPtr, r->res.linear.sizeInBytes) || bits == 0 || bits % 32 ||
	   bits > 128 || td->readMode != cudaReadModeElementType || td->normalizedCoords)
	{
		*t = 0;
		return fail(cudaErrorInvalidValue);
	}
	g_tex.push_back(tex_t{static_cast<char*>(r->res.linear.devPtr), r->res.linear.sizeInBytes, c, d});
	*t = g_tex.size() - 1;
	return cudaSuccess;
}
cudaError_t cudaDestroyTextureObject(cudaTextureObject_t t)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	if(t == 0 || t >= g_tex.size() || !g_tex[t].p) { die("a texture destroyed that does not exist"); }
	flush(g_tex[t].device);
	g_tex[t].p = nullptr;
	return cudaSuccess;
}

// ---------------------------------------------------------------- collective operations
namespace
{
struct coll { int op; const void* s; void* r; size_t n; ncclDataType_t t; ncclComm_t c; cudaStream_t st; };
std::vector<coll> g_coll;
int g_group = 0;

template<class T> void reduce(std::vector<coll>& v)
{
	std::vector<T> sum(v[0].n, 0);
	for(auto& c : v)
	{
		mem_access a(c.c->device);
		for(size_t k = 0; k != c.n; ++k) { sum[k] += static_cast<const T*>(c.s)[k]; }
	}
	for(auto& c : v)
	{
		mem_access a(c.c->device);
		memcpy(c.r, sum.data(), c.n * sizeof(T));
	}
}

ncclResult_t run_group()
{
	std::vector<coll> v;
	v.swap(g_coll);
	if(v.empty()) { return ncclSuccess; }
	size_t n = static_cast<size_t>(v[0].c->size);
	if(v.size() != n) { die("collective operation not issued once by every rank"); }
	std::sort(v.begin(), v.end(), [](const coll & a, const coll & b) { return a.c->rank < b.c->rank; });
	for(size_t k = 0; k != n; ++k)
	{
		if(static_cast<size_t>(v[k].c->rank) != k || v[k].op != v[0].op || v[k].n != v[0].n || v[k].t != v[0].t) { die("collective operation: ranks disagree"); }
		if(owner(v[k].s) != v[k].c->device || owner(v[k].r) != v[k].c->device || v[k].st->device != v[k].c->device) { die("collective operation: memory or stream of another device"); }
		size_t b = v[k].n * (v[k].t == ncclFloat32 ? 4 : 8);
		if(!inside(v[k].s, b) || !inside(v[k].r, v[k].op == 0 ? b * n : b)) { die("collective operation outside of the buffers"); }
	}
	for(auto& c : v) { flush(c.c->device); }
	size_t es = v[0].t == ncclFloat32 ? 4 : 8, b = v[0].n * es;
	if(v[0].op == 0)
	{
		std::vector<char> all(b * n);
		for(size_t k = 0; k != n; ++k)
		{
			mem_access a(v[k].c->device);
			memcpy(all.data() + k * b, v[k].s, b);
		}
		for(auto& c : v)
		{
			mem_access a(c.c->device);
			memcpy(c.r, all.data(), all.size());
		}
	}
	else if(es == 4) { reduce<float>(v); }
	else { reduce<double>(v); }
	return ncclSuccess;
}
}

const char* ncclGetErrorString(ncclResult_t) { return "error"; }
ncclResult_t ncclCommInitAll(ncclComm_t* c, int n, const int* ids)
{
	for(int k = 0; k != n; ++k)
	{
		for(int j = 0; j != k; ++j) { if(ids[j] == ids[k]) { return ncclInvalidUsage; } }
		c[k] = new cuemu_comm{k, n, ids[k]};
		++g_handles;
	}
	return ncclSuccess;
}
ncclResult_t ncclCommDestroy(ncclComm_t c)
{
	std::lock_guard<std::recursive_mutex> l(g_lock);
	delete c;
	--g_handles;
	return ncclSuccess;
}
ncclResult_t ncclGroupStart() { g_lock.lock(); ++g_group; return ncclSuccess; }
ncclResult_t ncclGroupEnd()
{
	ncclResult_t r = ncclSuccess;
	if(--g_group == 0) { r = run_group(); }
	g_lock.unlock();
	return r;
}
ncclResult_t ncclAllGather(const void* s, void* r, size_t n, ncclDataType_t t, ncclComm_t c, cudaStream_t st)
{
	if(g_group == 0) { die("collective operations of one thread outside of a group"); }
	g_coll.push_back(coll{0, s, r, n, t, c, st});
	return ncclSuccess;
}
ncclResult_t ncclAllReduce(const void* s, void* r, size_t n, ncclDataType_t t, ncclRedOp_t op, ncclComm_t c, cudaStream_t st)
{
	if(g_group == 0) { die("collective operations of one thread outside of a group"); }
	if(op != ncclSum) { die("reduction not modelled"); }
	g_coll.push_back(coll{1, s, r, n, t, c, st});
	return ncclSuccess;
}
