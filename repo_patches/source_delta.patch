From 1a8ec3b4c67c92544e4c14d8a3957606d833edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:17 +0000
Subject: [PATCH 01/33] fix: block engine read and wrote beyond its buffers for
 incomplete blocks

---
 nbody/nbody_engine_block.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_engine_block.cpp b/nbody/nbody_engine_block.cpp
index 8c12813..c09daf6 100644
--- a/nbody/nbody_engine_block.cpp
+++ b/nbody/nbody_engine_block.cpp
@@ -1,6 +1,7 @@
 #include "nbody_engine_block.h"
 #include <omp.h>
 #include <QDebug>
+#include <algorithm>
 
 nbody_engine_block::nbody_engine_block()
 {
@@ -51,6 +52,8 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 	#pragma omp parallel for
 	for(size_t n1 = 0; n1 < count; n1 += block)
 	{
+		// The last block may be incomplete
+		const size_t		block1 = std::min(block, count - n1);
 		nbcoord_t			x1[block];
 		nbcoord_t			y1[block];
 		nbcoord_t			z1[block];
@@ -58,7 +61,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		nbcoord_t			total_force_y[block];
 		nbcoord_t			total_force_z[block];
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 
@@ -71,12 +74,13 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		}
 		for(size_t n2 = 0; n2 < count; n2 += block)
 		{
+			const size_t		block2 = std::min(block, count - n2);
 			nbcoord_t			x2[block];
 			nbcoord_t			y2[block];
 			nbcoord_t			z2[block];
 			nbcoord_t			m2[block];
 
-			for(size_t b2 = 0; b2 != block; ++b2)
+			for(size_t b2 = 0; b2 != block2; ++b2)
 			{
 				size_t local_n2 = b2 + n2;
 
@@ -86,9 +90,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 				m2[b2] = mass[n2 + b2];
 			}
 
-			for(size_t b1 = 0; b1 != block; ++b1)
+			for(size_t b1 = 0; b1 != block1; ++b1)
 			{
-				for(size_t b2 = 0; b2 != block; ++b2)
+				for(size_t b2 = 0; b2 != block2; ++b2)
 				{
 					nbcoord_t		dx = x1[b1] - x2[b2];
 					nbcoord_t		dy = y1[b1] - y2[b2];
@@ -112,7 +116,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			}
 		}
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != block1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 			frx[local_n1] = vx[local_n1];
-- 
2.43.0


From 239b090a04295ce797c3ff216cca97ca80e14b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:29 +0000
Subject: [PATCH 02/33] fix: heap tree wrote beyond its nodes when the body
 count is not a power of two

---
 nbody/nbody_space_heap.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..0593932 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -49,15 +49,18 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	// Children of all nodes in range [level_begin, level_end) are at level_end or above
+	for(size_t level_end = count; level_end > NBODY_HEAP_ROOT_INDEX;)
 	{
+		size_t	level_begin = (level_end + 1) / 2;
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = level_begin; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
 			update(idx, left, rght);
 		}
+		level_end = level_begin;
 	}
 }
 
@@ -133,6 +136,18 @@ void nbody_space_heap::update(size_t idx, size_t left, size_t rght)
 	m_radius_sqr[idx] = (r * r) * m_distance_to_node_radius_ratio_sqr;
 }
 
+// Number of leaves in the left subtree of a complete binary tree with 'count' leaves.
+// Just count/2 for a power of two.
+static size_t left_subtree_size(size_t count)
+{
+	size_t	full = 1;
+	while(full * 2 <= count)
+	{
+		full *= 2;
+	}
+	return full / 2 + std::min(count - full, full / 2);
+}
+
 void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* rx, const nbcoord_t* ry,
 							   const nbcoord_t* rz, const nbcoord_t* mass, size_t idx, size_t dimension)
 {
@@ -146,7 +161,7 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	size_t	left_size = left_subtree_size(count);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From aa45c5930fd5bcaec43053c02f969d11da4ed318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:40 +0000
Subject: [PATCH 03/33] fix: OpenCL tree refresh skipped nodes when the body
 count is not a power of two

---
 nbody/nbody_engine_opencl.cl  |  6 +++---
 nbody/nbody_engine_opencl.cpp | 14 +++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cl b/nbody/nbody_engine_opencl.cl
index 41bc35f..e13cada 100644
--- a/nbody/nbody_engine_opencl.cl
+++ b/nbody/nbody_engine_opencl.cl
@@ -453,7 +453,7 @@ __kernel void UpdateLeafBH(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__kernel void UpdateNodeBH(int level_size,
+__kernel void UpdateNodeBH(int level_begin, int level_end,
 						   __global nbcoord_t* tree_cmx,
 						   __global nbcoord_t* tree_cmy,
 						   __global nbcoord_t* tree_cmz,
@@ -467,8 +467,8 @@ __kernel void UpdateNodeBH(int level_size,
 						   __global nbcoord_t* tree_crit_r2,
 						   nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = get_global_id(0) + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = get_global_id(0) + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..cbe6c42 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -107,7 +107,8 @@ typedef cl::make_kernel< cl_int, // Points count
 		cl::Buffer	//body indites
 		> UpdateLeafBH;
 
-typedef cl::make_kernel< cl_int, // Level size
+typedef cl::make_kernel< cl_int, // Level begin
+		cl_int, // Level end
 		cl::Buffer, cl::Buffer, cl::Buffer,	// mass center [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box min [x, y, z]
 		cl::Buffer, cl::Buffer, cl::Buffer,	// tree leaf box max [x, y, z]
@@ -1046,20 +1047,22 @@ void nbody_engine_opencl::data::update_tree(
 		}
 		cl::Event::waitForEvents(events);
 	}
-	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+	// Children of all nodes in range [level_begin, level_end) are at level_end or above
+	for(size_t level_end = data_size; level_end > NBODY_HEAP_ROOT_INDEX;)
 	{
 		std::vector<cl::Event>	events;
 
 		nbcoord_t distance_to_node_radius_ratio_sqr
 			= distance_to_node_radius_ratio * distance_to_node_radius_ratio;
-		size_t		level_size = level_count / 2;
-		cl::NDRange	level_range(std::max(level_size, local_range[0]));
+		size_t		level_begin = (level_end + 1) / 2;
+		size_t		level_size = level_end - level_begin;
+		cl::NDRange	level_range(local_range[0] * (1 + (level_size - 1) / local_range[0]));
 		for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
 		{
 			data::devctx&	ctx(m_devices[dev_n]);
 			cl::EnqueueArgs	eargs(ctx.m_queue, level_range, local_range);
 			cl::Event		ev(
-				ctx.m_update_node_hbh(eargs, level_size,
+				ctx.m_update_node_hbh(eargs, level_begin, level_end,
 									  m_tree_cmx->buffer(dev_n),
 									  m_tree_cmy->buffer(dev_n),
 									  m_tree_cmz->buffer(dev_n),
@@ -1075,6 +1078,7 @@ void nbody_engine_opencl::data::update_tree(
 			events.push_back(ev);
 		}
 		cl::Event::waitForEvents(events);
+		level_end = level_begin;
 	}
 }
 void nbody_engine_opencl::fcompute_bh_impl(const nbcoord_t& t, const memory* _y, memory* _f,
-- 
2.43.0


From da87782da78f833e6f6dd7e17bdc6bb526013c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:40 +0000
Subject: [PATCH 04/33] fix: nested tree traverse visited nodes with coincident
 bodies as leaves

---
 nbody/nbody_space_tree.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..f8ae914 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,16 +59,11 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			// Radius of a node is zero for coincident bodies, so it can't tell a leaf from a node
+			if(curr->m_left != NULL && curr->m_right != NULL)
 			{
-				if(curr->m_left != NULL)
-				{
-					*stack++ = curr->m_left;
-				}
-				if(curr->m_right != NULL)
-				{
-					*stack++ = curr->m_right;
-				}
+				*stack++ = curr->m_left;
+				*stack++ = curr->m_right;
 			}
 			else
 			{
-- 
2.43.0


From 80c62334b340c21a9323e299b5b3bd8e830b6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:49 +0000
Subject: [PATCH 05/33] fix: Ahmad-Cohen engine used empty neighbour tables
 when the first step is not a full one

---
 nbody/nbody_engine_ah.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..0682428 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,8 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	if(m_full_recompute_rate == 0 || m_univerce_force.size() != m_data->get_count() ||
+	   m_data->get_step() % m_full_recompute_rate == 0)
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From b8770907e3821dd41034a0e56a75c70344ef4e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:18 +0000
Subject: [PATCH 06/33] fix: fmaddn left its destination unset when all
 coefficients are zero

---
 nbody/nbody_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_engine.cpp b/nbody/nbody_engine.cpp
index d13ff1d..6977893 100644
--- a/nbody/nbody_engine.cpp
+++ b/nbody/nbody_engine.cpp
@@ -110,6 +110,11 @@ void nbody_engine::fmaddn(memory* a, const memory* b, const memory_array& c,
 		}
 		a_initiated = true;
 	}
+
+	if(!a_initiated && a != b)
+	{
+		copy_buffer(a, b);
+	}
 }
 
 void nbody_engine::print_info() const
-- 
2.43.0


From 52992257a9bcdc94f7a59aedc53f76b19d01e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:34 +0000
Subject: [PATCH 07/33] fix: OpenCL fmaxabs failed unless the number of blocks
 was even

---
 nbody/nbody_engine_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index cbe6c42..9db127f 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1485,7 +1485,7 @@ void nbody_engine_opencl::fmaxabs(const memory* _a, nbcoord_t& result)
 	size_t					device_data_size = problem_size() / device_count;
 	size_t					rdevice_data_size = rsize / device_count;
 	cl::NDRange				global_range(rsize);
-	cl::NDRange				local_range(4);
+	cl::NDRange				local_range(cl::NullRange);
 	std::vector<cl::Event>	events;
 	smemory					out(sizeof(nbcoord_t)*rsize, d->m_devices);
 
-- 
2.43.0


From 8347c3cfe646cb0edc4986c6ecffe782b0f00710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 08/33] fix: destroying a solver that was never given an engine
 dereferenced NULL

---
 nbody/nbody_solver_adams.cpp            |  7 +++++--
 nbody/nbody_solver_bulirsch_stoer.cpp   |  5 ++++-
 nbody/nbody_solver_euler.cpp            |  5 ++++-
 nbody/nbody_solver_midpoint.cpp         |  9 ++++++---
 nbody/nbody_solver_midpoint_stetter.cpp | 11 +++++++----
 nbody/nbody_solver_rk4.cpp              |  7 +++++--
 nbody/nbody_solver_rk_butcher.cpp       | 15 +++++++++------
 nbody/nbody_solver_trapeze.cpp          |  7 +++++--
 8 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..64d215e 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -18,8 +18,11 @@ nbody_solver_adams::nbody_solver_adams(nbody_solver* starter,
 nbody_solver_adams::~nbody_solver_adams()
 {
 	delete m_starter;
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_corr_data);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_f);
+		engine()->free_buffer(m_corr_data);
+	}
 }
 
 const char* nbody_solver_adams::type_name() const
diff --git a/nbody/nbody_solver_bulirsch_stoer.cpp b/nbody/nbody_solver_bulirsch_stoer.cpp
index f6c2468..a457f44 100644
--- a/nbody/nbody_solver_bulirsch_stoer.cpp
+++ b/nbody/nbody_solver_bulirsch_stoer.cpp
@@ -52,7 +52,10 @@ nbody_solver_bulirsch_stoer::nbody_solver_bulirsch_stoer(
 
 nbody_solver_bulirsch_stoer::~nbody_solver_bulirsch_stoer()
 {
-	engine()->free_buffer(m_y0);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_y0);
+	}
 	delete m_extrapolator;
 	delete m_internal;
 }
diff --git a/nbody/nbody_solver_euler.cpp b/nbody/nbody_solver_euler.cpp
index 4b684f9..4a9c1be 100644
--- a/nbody/nbody_solver_euler.cpp
+++ b/nbody/nbody_solver_euler.cpp
@@ -8,7 +8,10 @@ nbody_solver_euler::nbody_solver_euler() : nbody_solver()
 
 nbody_solver_euler::~nbody_solver_euler()
 {
-	engine()->free_buffer(m_dy);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_dy);
+	}
 }
 
 const char* nbody_solver_euler::type_name() const
diff --git a/nbody/nbody_solver_midpoint.cpp b/nbody/nbody_solver_midpoint.cpp
index f1d53f3..16e251e 100644
--- a/nbody/nbody_solver_midpoint.cpp
+++ b/nbody/nbody_solver_midpoint.cpp
@@ -9,9 +9,12 @@ nbody_solver_midpoint::nbody_solver_midpoint():
 
 nbody_solver_midpoint::~nbody_solver_midpoint()
 {
-	engine()->free_buffer(m_k1);
-	engine()->free_buffer(m_k2);
-	engine()->free_buffer(m_tmp);
+	if(engine() != NULL)
+	{
+		engine()->free_buffer(m_k1);
+		engine()->free_buffer(m_k2);
+		engine()->free_buffer(m_tmp);
+	}
 }
 
 const char* nbody_solver_midpoint::type_name() const
diff --git a/nbody/nbody_solver_midpoint_stetter.cpp b/nbody/nbody_solver_midpoint_stetter.cpp
index 62f136d..e31fd1d 100644
--- a/nbody/nbody_solver_midpoint_stetter.cpp
+++ b/nbody/nbody_solver_midpoint_stetter.cpp
@@ -9,10 +9,13 @@ nbody_solver_midpoint_stetter::nbody_solver_midpoint_stetter() :
 
 nbody_solver_midpoint_stetter::~nbody_solver_midpoint_stetter()
 {
-	engine()->free_buffers(m_fu);
-	engine()->free_buffers(m_uv);
-	engine()->free_buffer(m_tmp);
-	engine()->free_buffer(m_du);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_fu);
+		engine()->free_buffers(m_uv);
+		engine()->free_buffer(m_tmp);
+		engine()->free_buffer(m_du);
+	}
 }
 
 const char* nbody_solver_midpoint_stetter::type_name() const
diff --git a/nbody/nbody_solver_rk4.cpp b/nbody/nbody_solver_rk4.cpp
index 62a9c7c..fc6568d 100644
--- a/nbody/nbody_solver_rk4.cpp
+++ b/nbody/nbody_solver_rk4.cpp
@@ -7,8 +7,11 @@ nbody_solver_rk4::nbody_solver_rk4() : nbody_solver()
 
 nbody_solver_rk4::~nbody_solver_rk4()
 {
-	engine()->free_buffers(m_k);
-	engine()->free_buffer(m_tmp);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_k);
+		engine()->free_buffer(m_tmp);
+	}
 }
 
 const char* nbody_solver_rk4::type_name() const
diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..51964a3 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -19,12 +19,15 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 nbody_solver_rk_butcher::~nbody_solver_rk_butcher()
 {
 	delete m_bt;
-	engine()->free_buffers(m_k);;
-	engine()->free_buffer(m_t);
-	engine()->free_buffer(m_tmpk);
-	engine()->free_buffer(m_ycorr_data);
-	engine()->free_buffer(m_tcorr_data);
-	engine()->free_buffers(m_y_stack);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_k);;
+		engine()->free_buffer(m_t);
+		engine()->free_buffer(m_tmpk);
+		engine()->free_buffer(m_ycorr_data);
+		engine()->free_buffer(m_tcorr_data);
+		engine()->free_buffers(m_y_stack);
+	}
 }
 
 const char* nbody_solver_rk_butcher::type_name() const
diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..a98334c 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -9,8 +9,11 @@ nbody_solver_trapeze::nbody_solver_trapeze() : nbody_solver()
 
 nbody_solver_trapeze::~nbody_solver_trapeze()
 {
-	engine()->free_buffers(m_f);
-	engine()->free_buffer(m_predictor);
+	if(engine() != NULL)
+	{
+		engine()->free_buffers(m_f);
+		engine()->free_buffer(m_predictor);
+	}
 }
 
 const char* nbody_solver_trapeze::type_name() const
-- 
2.43.0


From 6a801c1d90c2d5244579492a9abbf0dd945b14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 09/33] fix: trapeze solver evaluated the right-hand side at
 the end of the step with the time of its begin

---
 nbody/nbody_solver_trapeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a98334c..e37f7ee 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -44,7 +44,7 @@ void nbody_solver_trapeze::advise(nbcoord_t dt)
 	for(size_t s = 0; s <= m_refine_steps_count; ++s)
 	{
 		const nbcoord_t	coeff[] = { dt / 2_f, dt / 2_f };
-		engine()->fcompute(t, m_predictor, m_f[1]);
+		engine()->fcompute(t + dt, m_predictor, m_f[1]);
 
 		if(s == m_refine_steps_count)
 		{
-- 
2.43.0


From 39b25e2972ef7e59bf859e37aad5eb463fadb9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 10/33] fix: resetting the Adams solver kept the state of its
 starter

---
 nbody/nbody_solver_adams.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index 64d215e..644a841 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -100,5 +100,6 @@ void nbody_solver_adams::reset()
 	{
 		engine()->fill_buffer(m_corr_data, 0);
 	}
+	m_starter->reset();
 	m_step = 0;
 }
-- 
2.43.0


From 9127b3c51f3f61bda4fa0cf0df0a6097c3805a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 11/33] fix: Adams factory accepted ranks without coefficients
 and recursed for an Adams starter

---
 nbody/nbody_solvers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index f78e336..7322c8f 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -1,4 +1,5 @@
 #include "nbody_solvers.h"
+#include <QDebug>
 
 template<class Solver>
 static nbody_solver* create_butcher_solver(const QVariantMap& param)
@@ -22,12 +23,19 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 	{
 		QVariantMap	starter_param(param);
 		starter_param["solver"] = param.value("starter_solver", "euler");
+		starter_param.remove("starter_solver");
+		int	rank = param.value("rank", 1).toInt();
+		if(rank < 1 || rank > 5)
+		{
+			qDebug() << "Invalid rank. Allowed values are from 1 to 5";
+			return NULL;
+		}
 		nbody_solver*	starter = nbody_create_solver(starter_param);
 		if(starter == NULL)
 		{
 			return NULL;
 		}
-		solver = new nbody_solver_adams(starter, param.value("rank", 1).toInt(),
+		solver = new nbody_solver_adams(starter, rank,
 										param.value("correction", false).toBool());
 	}
 	else if(type == "bs")
-- 
2.43.0


From ff0c8016e9dd29215006e360fa4cddf3e3eec15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:33 +0000
Subject: [PATCH 12/33] fix: fmaddn copied beyond the end of undersized buffers
 when all coefficients are zero

---
 nbody/nbody_engine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine.cpp b/nbody/nbody_engine.cpp
index 6977893..6d7e083 100644
--- a/nbody/nbody_engine.cpp
+++ b/nbody/nbody_engine.cpp
@@ -111,7 +111,8 @@ void nbody_engine::fmaddn(memory* a, const memory* b, const memory_array& c,
 		a_initiated = true;
 	}
 
-	if(!a_initiated && a != b)
+	const size_t	size = sizeof(nbcoord_t) * problem_size();
+	if(!a_initiated && a != NULL && a != b && a->size() >= size && b->size() >= size)
 	{
 		copy_buffer(a, b);
 	}
-- 
2.43.0


From 5296fbaca3900a823970109440afa5ea813d87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 13/33] fix: stream index kept only six digits of the frame
 time

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..cf6cb36 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -54,6 +54,7 @@ struct nbody_data_stream::data
 			return -1;
 		}
 		m_idx_stream.setDevice(&m_idx);
+		m_idx_stream.setRealNumberPrecision(16);
 		return 0;
 	}
 
-- 
2.43.0


From 3dc698c11006fb39f545fa95a8ce8c0dd108283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 14/33] fix: a stream writer used for a second stream did not
 write its header

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index cf6cb36..7a90a63 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -179,6 +179,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	else
 	{
 		d->m_file_n = 0;
+		d->m_header_written = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From 708eef3f06f0ad29f761df805cf6248e263f289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 15/33] fix: a stream reader used for a second stream kept the
 header of the first one

---
 nbody/nbody_data_stream_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..2fd144c 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -194,6 +194,9 @@ void nbody_data_stream_reader::close()
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
 }
 
 size_t nbody_data_stream_reader::get_frame_count() const
-- 
2.43.0


From cbb490d00d6c03c043b99ab9c64b00a29fe9cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 16/33] fix: stream reader gave masses and colors to the first
 destination only and ignored failures to read them

---
 nbody/nbody_data_stream_reader.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 2fd144c..33ddd83 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -29,16 +29,12 @@ struct nbody_data_stream_reader::data
 	size_t						m_coord_size;
 	size_t						m_body_count;
 	size_t						m_box_size;
-	bool						m_colors_read;
-	bool						m_masses_read;
 	data() :
 		m_file_n(std::numeric_limits<size_t>::max()),
 		m_current_frame(std::numeric_limits<size_t>::max()),
 		m_coord_size(0),
 		m_body_count(0),
-		m_box_size(0),
-		m_colors_read(false),
-		m_masses_read(false)
+		m_box_size(0)
 	{
 	}
 
@@ -326,6 +322,11 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
+	if(0 != d->read_colors(bdata) || 0 != d->read_masses(bdata))
+	{
+		return -1;
+	}
+
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
 	if(d->m_current_frame < d->m_frames.size() - 1)
@@ -337,17 +338,6 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		}
 	}
 
-	if(!d->m_colors_read)
-	{
-		d->m_colors_read = (0 == d->read_colors(bdata));
-	}
-
-	if(!d->m_masses_read)
-	{
-		d->m_masses_read = (0 == d->read_masses(bdata));
-	}
-
-
 	return 0;
 }
 
-- 
2.43.0


From 4560dd8e0ae9cc1fe5f7b79989d0155eab7adb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:45 +0000
Subject: [PATCH 17/33] fix: seeking a stream to its current frame did not
 return to that frame

---
 nbody/nbody_data_stream_reader.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 33ddd83..379b3df 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -220,11 +220,6 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
-	{
-		return 0;
-	}
-
 	if(frame >= d->m_frames.size())
 	{
 		qDebug() << "Can't seek to frame" << frame << "Out of range";
@@ -299,15 +294,23 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
-	if(0 != seek(d->m_current_frame))
+	// The file is closed after the last frame or an unsuccessful seek
+	if(d->m_current_frame >= d->m_frames.size() || !d->m_file.isOpen())
 	{
 		qDebug() << "Can't seek to current frame" << d->m_current_frame;
 		return -1;
 	}
 
-	qint64				fpos(d->m_file.pos());
-	qint64				sz(sizeof(nbvertex_t)*bdata->get_count());
 	const data::item&	frame(d->m_frames[ d->m_current_frame ]);
+	qint64				fpos(frame.file_pos);
+	qint64				sz(sizeof(nbvertex_t)*bdata->get_count());
+
+	if(!d->m_file.seek(fpos))
+	{
+		qDebug() << "Can't seek file" << d->m_file.fileName()
+				 << "To offset" << fpos << d->m_file.errorString();
+		return -1;
+	}
 
 	if(sz != d->m_file.read(reinterpret_cast<char*>(bdata->get_vertites()), sz))
 	{
@@ -337,6 +340,10 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 					 << "failed, but current #" << d->m_current_frame << "is OK";
 		}
 	}
+	else
+	{
+		d->m_file.close();
+	}
 
 	return 0;
 }
-- 
2.43.0


From 69d3d9680df36321e17d07e1a60be0f3b9fbdf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 18/33] fix: stream writer reported success for frames the disk
 refused

---
 nbody/nbody_data_stream.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 7a90a63..5210e8e 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -71,7 +71,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcolor_t)*bdata->get_count());
-			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz))
+			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz) || !col.flush())
 			{
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
@@ -85,7 +85,7 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcoord_t)*bdata->get_count());
-			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz))
+			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz) || !mass.flush())
 			{
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
@@ -150,7 +150,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
+	if(!d->m_data.flush())
+	{
+		qDebug() << "Can't write file" << d->m_data.fileName()
+				 << d->m_data.errorString();
+		return -1;
+	}
 
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
@@ -158,6 +163,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 					<< fpos << "\n";
 
 	d->m_idx_stream.flush();
+	if(d->m_idx_stream.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << d->m_idx.fileName()
+				 << d->m_idx.errorString();
+		return -1;
+	}
 
 	return 0;
 }
-- 
2.43.0


From b1cf3d6f7d87672c50f24d07e19b3da7426d769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 19/33] fix: saving a state reported success for a file the
 disk refused

---
 nbody/nbody_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..705fc6e 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -436,6 +436,13 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+	if(s.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From f3507fa32b6a3bc69032e83fa1d8e0191c8e7661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 20/33] fix: an index line cut off by an I/O error made the
 whole stream unreadable

---
 nbody/nbody_data_stream.cpp        | 10 ++++++++++
 nbody/nbody_data_stream_reader.cpp |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 5210e8e..f192f6e 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -47,6 +47,16 @@ struct nbody_data_stream::data
 			m_idx.close();
 		}
 		m_idx.setFileName(make_idx_name(m_base_name));
+		if(append && m_idx.open(QFile::ReadOnly))
+		{
+			// Drop a line cut off by an I/O error
+			const QByteArray	content(m_idx.readAll());
+			m_idx.close();
+			if(!content.endsWith('\n'))
+			{
+				m_idx.resize(content.lastIndexOf('\n') + 1);
+			}
+		}
 		QFile::OpenMode openmode = append ? QFile::Append : QFile::WriteOnly;
 		if(!m_idx.open(openmode))
 		{
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 379b3df..37ef13d 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -123,11 +123,20 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 		return -1;
 	}
 
+	// The writer terminates every line, a line without end was cut off by an I/O error
+	const bool	cut_off(idx.seek(idx.size() - 1) && idx.read(1) != "\n");
+	idx.seek(0);
+
 	QTextStream	stream(&idx);
 
 	while(!stream.atEnd())
 	{
 		QString			line(stream.readLine());
+		if(cut_off && stream.atEnd())
+		{
+			qDebug() << "Skip incomplete last line" << line;
+			break;
+		}
 		QStringList		parts(line.split(nbody_data_stream::get_idx_separator()));
 
 		if(line.startsWith("#"))
-- 
2.43.0


From f74aa4f44c7f03cbb79bc327ac43183a1a814b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 21/33] fix: a resumed simulation lost its boundary box

---
 nbody/nbody_data.cpp               | 5 +++++
 nbody/nbody_data.h                 | 1 +
 nbody/nbody_data_stream_reader.cpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 705fc6e..1476056 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -245,6 +245,11 @@ size_t nbody_data::get_box_size() const
 	return m_box_size;
 }
 
+void nbody_data::set_box_size(size_t s)
+{
+	m_box_size = s;
+}
+
 size_t nbody_data::get_count() const
 {
 	return m_count;
diff --git a/nbody/nbody_data.h b/nbody/nbody_data.h
index 86609ad..c84660c 100644
--- a/nbody/nbody_data.h
+++ b/nbody/nbody_data.h
@@ -56,6 +56,7 @@ public:
 	nbcolor_t* get_color();
 	const nbcolor_t* get_color() const;
 	size_t get_box_size() const;
+	void set_box_size(size_t s);
 	void print_statistics(nbody_engine*);
 	void dump_body(size_t n);
 	bool resize(size_t);
diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 37ef13d..64851b0 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -341,6 +341,7 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 
 	bdata->set_time(frame.time);
 	bdata->set_step(frame.step);
+	bdata->set_box_size(d->m_box_size);
 	if(d->m_current_frame < d->m_frames.size() - 1)
 	{
 		if(0 != seek(d->m_current_frame + 1))
-- 
2.43.0


From fe1da6ce03377970c7658378b670527f28566e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 22/33] fix: Zeno loader accepted non-numeric values and
 trusted any body count

---
 nbody/nbody_data.cpp | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 1476056..3f59b8b 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -569,6 +569,12 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 	}
+	// Every body takes several lines
+	if(!file.isSequential() && count > static_cast<size_t>(file.size()))
+	{
+		qDebug() << "Body count" << count << "exceeds the size of" << fn;
+		return false;
+	}
 	if(!resize(count))
 	{
 		qDebug() << "Can't resize data to count" << count;
@@ -585,7 +591,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Invalid mass" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -600,9 +612,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(&ok[0]),
+									   pos_line[1].toDouble(&ok[1]),
+									   pos_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Invalid vector" << pos_line;
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -618,9 +636,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(&ok[0]),
+									   vel_line[1].toDouble(&ok[1]),
+									   vel_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Invalid vector" << vel_line;
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From c57d3c2cc5fa22e795397d0fa0caa7ad363d6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 23/33] fix: converting an out of range box size was undefined

---
 nbody/nbody_data.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 3f59b8b..3c86061 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -9,6 +9,7 @@
 #include "summation_proxy.h"
 
 #include <omp.h>
+#include <limits>
 #include <random>
 
 namespace {
@@ -684,12 +685,13 @@ bool nbody_data::load_initial(const QString& fn, const QString& type)
 
 	for(const auto& v : m_vertites)
 	{
-		r.x = std::max(v.x, r.x);
-		r.y = std::max(v.y, r.y);
-		r.z = std::max(v.z, r.z);
+		r.x = std::max(r.x, v.x);
+		r.y = std::max(r.y, v.y);
+		r.z = std::max(r.z, v.z);
 	}
 
-	m_box_size = static_cast<size_t>(std::max(r.x, std::max(r.y, r.z)));
+	const nbcoord_t	max_box_size = static_cast<nbcoord_t>(std::numeric_limits<qint64>::max());
+	m_box_size = static_cast<size_t>(std::min(max_box_size, std::max(r.x, std::max(r.y, r.z))));
 
 	return ret;
 }
-- 
2.43.0


From 2d2f24301e51c59bc25c2e5bc40d755c9dbcf607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:54 +0000
Subject: [PATCH 24/33] fix: a universe without stars never came to an end

Rounding a star count of zero up to whole blocks wrapped around.
---
 nbody/nbody_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 3c86061..9570c3a 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -263,7 +263,7 @@ void nbody_data::set_check_list(const QString& check_list)
 
 static size_t round_up(size_t n, size_t factor)
 {
-	return factor * (1 + (n - 1) / factor);
+	return n == 0 ? factor : factor * (1 + (n - 1) / factor);
 }
 
 void nbody_data::add_galaxy(const nbvertex_t& center, const nbvertex_t& velosity,
-- 
2.43.0


From c653d97e2c7d865e0a7c51b7d29c3fb120dcdc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:08 +0000
Subject: [PATCH 25/33] fix: resuming a stream that holds only the initial
 state stored that state twice

---
 nbody/nbody_data_stream.cpp | 11 ++++++++++-
 nbody/nbody_data_stream.h   |  2 ++
 nbody/nbody_solver.cpp      |  3 ++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index f192f6e..749c1c6 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -16,11 +16,13 @@ struct nbody_data_stream::data
 	QFile			m_idx;
 	QString			m_base_name;
 	bool			m_header_written;
+	bool			m_append;
 
 	data() :
 		m_file_n(0),
 		m_max_part_size(1024 * 1024 * 1024),
-		m_header_written(false)
+		m_header_written(false),
+		m_append(false)
 	{
 	}
 
@@ -192,6 +194,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	d->m_base_name = name;
 	d->m_max_part_size = max_part_size;
 	bool append_mode = append_to != NULL;
+	d->m_append = append_mode;
 	if(append_mode)
 	{
 		d->m_file_n = append_to->get_last_file_n();
@@ -222,10 +225,16 @@ void nbody_data_stream::close()
 {
 	d->m_base_name.clear();
 	d->m_file_n = 0;
+	d->m_append = false;
 	d->m_idx.close();
 	d->m_data.close();
 }
 
+bool nbody_data_stream::is_append() const
+{
+	return d->m_append;
+}
+
 QString nbody_data_stream::make_idx_name(const QString& file_base_name)
 {
 	return file_base_name + ".idx";
diff --git a/nbody/nbody_data_stream.h b/nbody/nbody_data_stream.h
index 9a4fa6d..99c9fbd 100644
--- a/nbody/nbody_data_stream.h
+++ b/nbody/nbody_data_stream.h
@@ -23,6 +23,8 @@ public:
 	int open(const QString& file_base_name, qint64 max_part_size,
 			 const nbody_data_stream_reader* append_to = NULL);
 	void close();
+	//! The stream continues the one given to open() as append_to
+	bool is_append() const;
 
 	static QString make_idx_name(const QString& file_base_name);
 	static QString make_dat_name(const QString& file_base_name, size_t part_n);
diff --git a/nbody/nbody_solver.cpp b/nbody/nbody_solver.cpp
index 1373124..c00137f 100644
--- a/nbody/nbody_solver.cpp
+++ b/nbody/nbody_solver.cpp
@@ -59,7 +59,8 @@ int nbody_solver::run(nbody_data* data, nbody_data_stream* stream, nbcoord_t max
 	nbcoord_t   last_check = data->get_time();
 	nbcoord_t   last_dump = last_check;
 
-	if(stream != NULL && dump_dt > 0 && last_dump <= 0)
+	// A continued stream already holds the state to continue from
+	if(stream != NULL && dump_dt > 0 && last_dump <= 0 && !stream->is_append())
 	{
 		m_engine->get_data(data);
 		if(0 != stream->write(data))
-- 
2.43.0


From a5ec7afe7f7cdbec6f945246a84ebf01aa784d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:46 +0000
Subject: [PATCH 26/33] fix: a stream header with an arbitrary body count was
 accepted

The body count tells the caller how much memory to allocate; it is now limited by the size of the first frame's data file.
---
 nbody/nbody_data_stream_reader.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index 64851b0..3ed3f54 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -4,6 +4,7 @@
 #include <vector>
 #include <map>
 #include <limits>
+#include <algorithm>
 #include <QFile>
 #include <QTextStream>
 #include <QDebug>
@@ -187,7 +188,20 @@ int nbody_data_stream_reader::load(const QString& file_base_name)
 	}
 	d->m_file_base_name = file_base_name;
 
-	return seek(0);
+	if(0 != seek(0))
+	{
+		return -1;
+	}
+
+	const size_t	available(static_cast<size_t>(std::max<qint64>(0, d->m_file.size() - d->m_file.pos())));
+	if(d->m_body_count > available / (2 * sizeof(nbvertex_t)))
+	{
+		qDebug() << "Body count" << d->m_body_count << "exceeds the size of" << d->m_file.fileName();
+		close();
+		return -1;
+	}
+
+	return 0;
 }
 
 void nbody_data_stream_reader::close()
-- 
2.43.0


From 5522034ba6c4804a613251fa6b6ef3f2e907523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 27/33] fix: recorded frames were lost when the destination
 name holds a place marker

---
 player/nbody_frame_compressor_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/player/nbody_frame_compressor_image.cpp b/player/nbody_frame_compressor_image.cpp
index a475447..3321267 100644
--- a/player/nbody_frame_compressor_image.cpp
+++ b/player/nbody_frame_compressor_image.cpp
@@ -22,7 +22,7 @@ bool nbody_frame_compressor_image::set_destination(const QString& d)
 
 	m_destination = d;
 
-	m_name_tmpl = d + "/%1.png";
+	m_name_tmpl = "/%1.png";
 
 	return true;
 }
@@ -34,7 +34,7 @@ static bool frame_writer(const QImage& img, const QString& fname)
 
 void nbody_frame_compressor_image::push_frame(const QImage& frame, size_t frame_n)
 {
-	QString		frame_name(m_name_tmpl.arg(frame_n, 8, 10,  QChar('0')));
+	QString		frame_name(m_destination + m_name_tmpl.arg(frame_n, 8, 10,  QChar('0')));
 
 	m_results << QtConcurrent::run(frame_writer, frame, frame_name);
 
-- 
2.43.0


From 28fb9bc5125382ce1cae55596793f99d90e0d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:53 +0000
Subject: [PATCH 28/33] fix: refresh all tree nodes on CUDA for body counts
 that are not a power of two

---
 nbody/nbody_engine_cuda_bh.cpp     |  8 +++++---
 nbody/nbody_engine_cuda_bh_tex.cpp |  8 +++++---
 nbody/nbody_engine_cuda_impl.cu    | 24 ++++++++++++------------
 nbody/nbody_engine_cuda_impl.h     |  4 ++--
 4 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/nbody/nbody_engine_cuda_bh.cpp b/nbody/nbody_engine_cuda_bh.cpp
index 51623a2..a7cf9db 100644
--- a/nbody/nbody_engine_cuda_bh.cpp
+++ b/nbody/nbody_engine_cuda_bh.cpp
@@ -151,12 +151,13 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 						   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 						   static_cast<int*>(m_dev_indites->data(dev_n)));
 			cudaDeviceSynchronize();
-			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+			// Children of all nodes in range [level_begin, level_end) are at level_end or above
+			for(size_t level_end = data_size; level_end > NBODY_HEAP_ROOT_INDEX;)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
 					= m_distance_to_node_radius_ratio * m_distance_to_node_radius_ratio;
-				size_t		level_size = level_count / 2;
-				update_node_bh(level_size,
+				size_t		level_begin = (level_end + 1) / 2;
+				update_node_bh(level_begin, level_end,
 							   static_cast<nbcoord_t*>(m_dev_tree_cmx->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_cmy->data(dev_n)),
 							   static_cast<nbcoord_t*>(m_dev_tree_cmz->data(dev_n)),
@@ -170,6 +171,7 @@ void nbody_engine_cuda_bh::fcompute(const nbcoord_t& t, const memory* _y, memory
 							   static_cast<nbcoord_t*>(m_dev_tree_crit_r2->data(dev_n)),
 							   distance_to_node_radius_ratio_sqr);
 				cudaDeviceSynchronize();
+				level_end = level_begin;
 			}
 		}
 	}
diff --git a/nbody/nbody_engine_cuda_bh_tex.cpp b/nbody/nbody_engine_cuda_bh_tex.cpp
index d9014c9..7ed8917 100644
--- a/nbody/nbody_engine_cuda_bh_tex.cpp
+++ b/nbody/nbody_engine_cuda_bh_tex.cpp
@@ -143,12 +143,13 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 							   static_cast<nbcoord_t*>(m_dev_bmax_cmz->data(dev_n)),
 							   static_cast<int*>(m_dev_indites->data(dev_n)));
 			cudaDeviceSynchronize();
-			for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+			// Children of all nodes in range [level_begin, level_end) are at level_end or above
+			for(size_t level_end = data_size; level_end > NBODY_HEAP_ROOT_INDEX;)
 			{
 				nbcoord_t distance_to_node_radius_ratio_sqr
 					= m_distance_to_node_radius_ratio * m_distance_to_node_radius_ratio;
-				size_t		level_size = level_count / 2;
-				update_node_bh_tex(level_size,
+				size_t		level_begin = (level_end + 1) / 2;
+				update_node_bh_tex(level_begin, level_end,
 								   static_cast<nbcoord_t*>(m_dev_tree_xyzr->data(dev_n)),
 								   static_cast<nbcoord_t*>(m_dev_bmin_cmx->data(dev_n)),
 								   static_cast<nbcoord_t*>(m_dev_bmin_cmy->data(dev_n)),
@@ -159,6 +160,7 @@ void nbody_engine_cuda_bh_tex::fcompute(const nbcoord_t& t, const memory* _y, me
 								   static_cast<nbcoord_t*>(m_dev_tree_mass->data(dev_n)),
 								   distance_to_node_radius_ratio_sqr);
 				cudaDeviceSynchronize();
+				level_end = level_begin;
 			}
 		}
 	}
diff --git a/nbody/nbody_engine_cuda_impl.cu b/nbody/nbody_engine_cuda_impl.cu
index 0af09d5..28dcb63 100644
--- a/nbody/nbody_engine_cuda_impl.cu
+++ b/nbody/nbody_engine_cuda_impl.cu
@@ -560,7 +560,7 @@ __host__ void update_leaf_bh_tex(int points_count,
 }
 
 // Update node coordinates (Barnes-Hut engine)
-__global__ void kupdate_node_bh(int level_size,
+__global__ void kupdate_node_bh(int level_begin, int level_end,
 								nbcoord_t* tree_cmx,
 								nbcoord_t* tree_cmy,
 								nbcoord_t* tree_cmz,
@@ -574,8 +574,8 @@ __global__ void kupdate_node_bh(int level_size,
 								nbcoord_t* tree_crit_r2,
 								nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
@@ -614,7 +614,7 @@ __global__ void kupdate_node_bh(int level_size,
 	tree_crit_r2[idx] = (r * r) * distance_to_node_radius_ratio_sqr;
 }
 
-__host__ void update_node_bh(int level_size,
+__host__ void update_node_bh(int level_begin, int level_end,
 							 nbcoord_t* tree_cmx,
 							 nbcoord_t* tree_cmy,
 							 nbcoord_t* tree_cmz,
@@ -628,10 +628,10 @@ __host__ void update_node_bh(int level_size,
 							 nbcoord_t* tree_crit_r2,
 							 nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	dim3 grid(std::max(1, level_size / NBODY_DATA_BLOCK_SIZE));
+	dim3 grid(1 + (level_end - level_begin - 1) / NBODY_DATA_BLOCK_SIZE);
 	dim3 block(NBODY_DATA_BLOCK_SIZE);
 
-	kupdate_node_bh <<< grid, block >>> (level_size,
+	kupdate_node_bh <<< grid, block >>> (level_begin, level_end,
 										 tree_cmx, tree_cmy, tree_cmz,
 										 bmin_cmx, bmin_cmy, bmin_cmz,
 										 bmax_cmx, bmax_cmy, bmax_cmz,
@@ -641,7 +641,7 @@ __host__ void update_node_bh(int level_size,
 }
 
 // Update node coordinates (Barnes-Hut engine) texture storage mode
-__global__ void kupdate_node_bh_tex(int level_size,
+__global__ void kupdate_node_bh_tex(int level_begin, int level_end,
 									nbcoord_t* tree_xyzr,
 									nbcoord_t* bmin_cmx,
 									nbcoord_t* bmin_cmy,
@@ -652,8 +652,8 @@ __global__ void kupdate_node_bh_tex(int level_size,
 									nbcoord_t* tree_mass,
 									nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_size;
-	if(idx >= 2 * level_size)
+	int		idx = blockDim.x * blockIdx.x + threadIdx.x + level_begin;
+	if(idx >= level_end)
 	{
 		return;
 	}
@@ -692,7 +692,7 @@ __global__ void kupdate_node_bh_tex(int level_size,
 	tree_xyzr[4 * idx + 3] = (r * r) * distance_to_node_radius_ratio_sqr;
 }
 
-__host__ void update_node_bh_tex(int level_size,
+__host__ void update_node_bh_tex(int level_begin, int level_end,
 								 nbcoord_t* tree_xyzr,
 								 nbcoord_t* bmin_cmx,
 								 nbcoord_t* bmin_cmy,
@@ -703,10 +703,10 @@ __host__ void update_node_bh_tex(int level_size,
 								 nbcoord_t* tree_mass,
 								 nbcoord_t distance_to_node_radius_ratio_sqr)
 {
-	dim3 grid(std::max(1, level_size / NBODY_DATA_BLOCK_SIZE));
+	dim3 grid(1 + (level_end - level_begin - 1) / NBODY_DATA_BLOCK_SIZE);
 	dim3 block(NBODY_DATA_BLOCK_SIZE);
 
-	kupdate_node_bh_tex <<< grid, block >>> (level_size, tree_xyzr,
+	kupdate_node_bh_tex <<< grid, block >>> (level_begin, level_end, tree_xyzr,
 											 bmin_cmx, bmin_cmy, bmin_cmz,
 											 bmax_cmx, bmax_cmy, bmax_cmz,
 											 tree_mass, distance_to_node_radius_ratio_sqr);
diff --git a/nbody/nbody_engine_cuda_impl.h b/nbody/nbody_engine_cuda_impl.h
index bcdd93e..4dc45ca 100644
--- a/nbody/nbody_engine_cuda_impl.h
+++ b/nbody/nbody_engine_cuda_impl.h
@@ -61,7 +61,7 @@ __host__ void update_leaf_bh(int points_count,
 							 nbcoord_t* bmax_cmy,
 							 nbcoord_t* bmax_cmz,
 							 const int* body_n);
-__host__ void update_node_bh(int level_size,
+__host__ void update_node_bh(int level_begin, int level_end,
 							 nbcoord_t* tree_cmx,
 							 nbcoord_t* tree_cmy,
 							 nbcoord_t* tree_cmz,
@@ -84,7 +84,7 @@ __host__ void update_leaf_bh_tex(int points_count,
 								 nbcoord_t* bmax_cmy,
 								 nbcoord_t* bmax_cmz,
 								 const int* body_n);
-__host__ void update_node_bh_tex(int level_size,
+__host__ void update_node_bh_tex(int level_begin, int level_end,
 								 nbcoord_t* tree_xyzr,
 								 nbcoord_t* bmin_cmx,
 								 nbcoord_t* bmin_cmy,
-- 
2.43.0


From 8617580f283fd35e6a48ccf16b1c6f4a741724c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:53 +0000
Subject: [PATCH 29/33] fix: finish pending CUDA operations before the
 coordinates are exchanged between devices

---
 nbody/nbody_engine_cuda.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nbody/nbody_engine_cuda.cpp b/nbody/nbody_engine_cuda.cpp
index aaac309..87a70c8 100644
--- a/nbody/nbody_engine_cuda.cpp
+++ b/nbody/nbody_engine_cuda.cpp
@@ -58,6 +58,14 @@ struct nbody_engine_cuda::data
 			CUDACHECK(cudaStreamSynchronize(m_streams[i]));
 		}
 	}
+	void device_sync()
+	{
+		for(size_t i = 0; i < m_device_ids.size(); ++i)
+		{
+			CUDACHECK(cudaSetDevice(m_device_ids[i]));
+			CUDACHECK(cudaDeviceSynchronize());
+		}
+	}
 };
 
 nbody_engine_cuda::nbody_engine_cuda() :
@@ -640,6 +648,8 @@ void nbody_engine_cuda::synchronize_y(smemory* y)
 	else
 #endif // HAVE_NCCL
 	{
+		// A pending operation on the destination device must not overwrite the data copied from other device
+		d->device_sync();
 		size_t	device_data_size = y->size() / device_count;
 		for(size_t shift_n = 1; shift_n < device_count; shift_n *= 2)
 		{
-- 
2.43.0


From a8f8db02c8d0eace0c07e2dc8ec850f6b2b265e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:38 +0000
Subject: [PATCH 30/33] fix: speed colours of the player read past the palette

A speed between 3/4 and the whole of the spread indexed behind the end of the
table, and equal velocities (0/0) produced a NaN that was used as an index.
---
 player/wgt_nbody_view.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index e2da9e5..d4439a2 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -134,7 +134,7 @@ static nbcolor_t get_color(nbcoord_t x)
 		nbcolor_t(1.0f, 0.0f, 0.0f, 1.0f)
 	};
 	size_t	lut_len = sizeof(lut) / sizeof(lut[0]);
-	if(x <= 0)
+	if(!(x > 0))	// Also NaN: no velocity at all
 	{
 		return lut[0];
 	}
@@ -142,7 +142,7 @@ static nbcolor_t get_color(nbcoord_t x)
 	{
 		return lut[lut_len - 1];
 	}
-	x *= lut_len;
+	x *= (lut_len - 1);
 
 	size_t		i = static_cast<size_t>(ceil(x));
 	nbcoord_t	w = i - x;
-- 
2.43.0


From b5b24a9eb0c13489e5bb0df9758bc30480abade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:38 +0000
Subject: [PATCH 31/33] fix: recorded videos ignored the star intensity

The picture was drawn on a transparent background, so its alpha held the star
intensity and the conversion to RGB divided the colours by it.
---
 player/wgt_nbody_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index d4439a2..a57b47a 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -319,7 +319,7 @@ void wgt_nbody_view::paintGL(QPaintDevice* pd, GLsizei width, GLsizei height, qr
 	p.beginNativePainting();
 	setup_view_box();
 	glViewport(0, 0, width, height);
-	glClearColor(0, 0, 0, 0);
+	glClearColor(0, 0, 0, 1);
 	glClear(GL_COLOR_BUFFER_BIT | GL_DEPTH_BUFFER_BIT);
 
 	nbvertex_t	center((m_box_max + m_box_min) * 0.5);
-- 
2.43.0


From 83415d4b5f3bc0ecb9fc106d9a53e0a14ad6e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:38 +0000
Subject: [PATCH 32/33] fix: the player did not show the first frame until the
 timeline moved

---
 player/wgt_nbody_player.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/player/wgt_nbody_player.cpp b/player/wgt_nbody_player.cpp
index b19b37f..3052f24 100644
--- a/player/wgt_nbody_player.cpp
+++ b/player/wgt_nbody_player.cpp
@@ -50,6 +50,8 @@ wgt_nbody_player::wgt_nbody_player(nbody_data_stream_reader* stream,
 			this, SLOT(on_update_view()));
 	connect(m_view, SIGNAL(stars_size_range_changed(double, double, double)),
 			m_control, SLOT(on_stars_size_range_changed(double, double, double)));
+
+	on_update_data();
 }
 
 wgt_nbody_player::~wgt_nbody_player()
-- 
2.43.0


From b2cded077de31af51b6a5969a19fa1574ecc3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:44 +0000
Subject: [PATCH 33/33] fix: the player shows the deviation of each law that is
 checked

---
 player/wgt_nbody_view.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/player/wgt_nbody_view.cpp b/player/wgt_nbody_view.cpp
index a57b47a..0a10f11 100644
--- a/player/wgt_nbody_view.cpp
+++ b/player/wgt_nbody_view.cpp
@@ -343,11 +343,11 @@ void wgt_nbody_view::paintGL(QPaintDevice* pd, GLsizei width, GLsizei height, qr
 	{
 		p.drawText(20, 80, QString("dP    = %1 %").arg(m_data->get_impulce_err(), 3, 'e', 2));
 	}
-	if(qIsFinite(m_data->get_impulce_err()))
+	if(qIsFinite(m_data->get_impulce_moment_err()))
 	{
 		p.drawText(20, 100, QString("dL    = %1 %").arg(m_data->get_impulce_moment_err(), 3, 'e', 2));
 	}
-	if(qIsFinite(m_data->get_impulce_err()))
+	if(qIsFinite(m_data->get_energy_err()))
 	{
 		p.drawText(20, 120, QString("dE    = %1 %").arg(m_data->get_energy_err(), 3, 'e', 2));
 	}
-- 
2.43.0

