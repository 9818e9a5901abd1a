// Execution model of a CUDA system in plain C++: devices with memories of their own, queued kernels and copies,
// blocks of threads that meet at barriers. Just the part of the interface the engines use.
#ifndef CUEMU_CUDA_RUNTIME_H
#define CUEMU_CUDA_RUNTIME_H

#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <vector>

#define __host__
#define __device__
#define __global__
#define __forceinline__ inline
#define __restrict__
#define __launch_bounds__(...)
#define __constant__ static
#define __shared__ static thread_local

#define CUDART_VERSION 11000

struct uint3 { unsigned x, y, z; };
struct dim3
{
	unsigned x, y, z;
	dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {}
};
struct int2 { int x, y; };
struct int4 { int x, y, z, w; };
struct float2 { float x, y; };
struct float3 { float x, y, z; };
struct float4 { float x, y, z, w; };
struct double2 { double x, y; };
struct double3 { double x, y, z; };
struct double4 { double x, y, z, w; };
inline double3 make_double3(double x, double y, double z) { return {x, y, z}; }
inline double4 make_double4(double x, double y, double z, double w) { return {x, y, z, w}; }
inline float3 make_float3(float x, float y, float z) { return {x, y, z}; }
inline float4 make_float4(float x, float y, float z, float w) { return {x, y, z, w}; }

enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9,
				   cudaErrorInvalidDevice = 101, cudaErrorInvalidResourceHandle = 400 };
typedef cudaError_t cudaError;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
enum cudaFuncCache { cudaFuncCachePreferNone, cudaFuncCachePreferShared, cudaFuncCachePreferL1, cudaFuncCachePreferEqual };
enum cudaChannelFormatKind { cudaChannelFormatKindSigned, cudaChannelFormatKindUnsigned, cudaChannelFormatKindFloat, cudaChannelFormatKindNone };
enum cudaResourceType { cudaResourceTypeArray, cudaResourceTypeMipmappedArray, cudaResourceTypeLinear, cudaResourceTypePitch2D };
enum cudaTextureReadMode { cudaReadModeElementType, cudaReadModeNormalizedFloat };
enum cudaTextureAddressMode { cudaAddressModeWrap, cudaAddressModeClamp, cudaAddressModeMirror, cudaAddressModeBorder };
enum cudaTextureFilterMode { cudaFilterModePoint, cudaFilterModeLinear };

struct cudaChannelFormatDesc { int x, y, z, w; cudaChannelFormatKind f; };
struct cudaResourceDesc
{
	cudaResourceType resType;
	struct { struct { void* devPtr; cudaChannelFormatDesc desc; size_t sizeInBytes; } linear; } res;
};
struct cudaTextureDesc
{
	cudaTextureAddressMode addressMode[3];
	cudaTextureFilterMode filterMode;
	cudaTextureReadMode readMode;
	int normalizedCoords;
};
struct cudaResourceViewDesc;
struct cudaUUID_t { char bytes[16]; };
struct cudaDeviceProp
{
	char name[256];
	cudaUUID_t uuid;
	size_t totalGlobalMem, sharedMemPerBlock, sharedMemPerMultiprocessor, memPitch, totalConstMem;
	int regsPerBlock, regsPerMultiprocessor, l2CacheSize, major, minor, pciBusID, pciDeviceID, pciDomainID, maxThreadsPerBlock;
};

typedef unsigned long long cudaTextureObject_t;
typedef struct cuemu_stream* cudaStream_t;

const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetDeviceCount(int*);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaSetDevice(int);
cudaError_t cudaGetDevice(int*);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaStreamCreate(cudaStream_t*);
cudaError_t cudaStreamDestroy(cudaStream_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cuemu_malloc(void**, size_t);
template<class T> cudaError_t cudaMalloc(T** p, size_t s) { return cuemu_malloc(reinterpret_cast<void**>(p), s); }
cudaError_t cudaFree(void*);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemcpy2D(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpy2DAsync(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemcpyPeer(void*, int, const void*, int, size_t);
cudaError_t cudaMemcpyPeerAsync(void*, int, const void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaCreateTextureObject(cudaTextureObject_t*, const cudaResourceDesc*, const cudaTextureDesc*, const cudaResourceViewDesc*);
cudaError_t cudaDestroyTextureObject(cudaTextureObject_t);
template<class F> cudaError_t cudaFuncSetCacheConfig(F*, cudaFuncCache) { return cudaSuccess; }

namespace cuemu
{
struct thread_state
{
	uint3	tid, bid;
	dim3	bdim, gdim;
};
extern thread_state* current;	// the CUDA thread being executed
thread_state& self();
void* dynamic_shared();
void barrier();
void launch(dim3 grid, dim3 block, size_t shared, cudaStream_t s, const std::function<void()>& body);
bool tex_read(cudaTextureObject_t, long index, size_t elem, void* out);	// 'elem': bytes per texel
// run something on the current device, after everything queued there
void synchronous(const std::function<void()>&);

template<class... P>
struct launcher
{
	dim3 g, b;
	size_t sh;
	cudaStream_t s;
	void (*k)(P...);
	void operator()(P... a) const
	{
		auto f = k;
		launch(g, b, sh, s, [ = ]() { f(a...); });
	}
};
struct config
{
	dim3 g, b;
	size_t sh;
	cudaStream_t s;
	config(dim3 _g, dim3 _b, size_t _sh = 0, cudaStream_t _s = nullptr) : g(_g), b(_b), sh(_sh), s(_s) {}
};
template<class... P> launcher<P...> prepare(const config& c, void (*k)(P...)) { return launcher<P...> {c.g, c.b, c.sh, c.s, k}; }

// what a case sets before it starts
void reset(uint64_t seed, int lazy);	// lazy 0: at once, 1: sometimes, 2: as late as allowed
size_t live_allocations();
}

#ifdef CUEMU_DEVICE_CODE
#define threadIdx (cuemu::self().tid)
#define blockIdx (cuemu::self().bid)
#define blockDim (cuemu::self().bdim)
#define gridDim (cuemu::self().gdim)
#define __syncthreads() cuemu::barrier()
using std::min;
using std::max;
#endif

inline double __hiloint2double(int hi, int lo)
{
	uint64_t u = (static_cast<uint64_t>(static_cast<uint32_t>(hi)) << 32) | static_cast<uint32_t>(lo);
	double d;
	memcpy(&d, &u, sizeof d);
	return d;
}

template<class T> T tex1Dfetch(cudaTextureObject_t t, int i)
{
	T v;
	memset(&v, 0, sizeof v);
	cuemu::tex_read(t, i, sizeof v, &v);
	return v;
}

#endif
