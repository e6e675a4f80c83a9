From a87d3732fd8202b74be8a546be80b9822af1a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 01/32] fix: accept 1-D batch_id in Points, so that
 Octree.to_points works

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index a23d061..ff54be8 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -63,9 +63,9 @@ class Points:
     if self.batch_id is not None:
       assert self.batch_id.dim() == 2 or self.batch_id.dim() == 1
       assert self.batch_id.size(0) == self.points.size(0)
-      assert self.batch_id.size(1) == 1
       if self.batch_id.dim() == 1:
         self.batch_id = self.batch_id.unsqueeze(1)
+      assert self.batch_id.size(1) == 1
 
   @property
   def npt(self):
-- 
2.43.0


From c03d6937a8ab69c01debfb7839f1331a37d767c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 02/32] fix: keep batch_size when moving Points to another
 device

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index ff54be8..975bbe9 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -239,7 +239,7 @@ class Points:
       return self
 
     # Construct a new Points on the specified device
-    points = Points(torch.zeros(1, 3, device=device))
+    points = Points(torch.zeros(1, 3, device=device), batch_size=self.batch_size)
     points.batch_npt = self.batch_npt
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
-- 
2.43.0


From 9779dbd55c2432b562ad1207e7feb53707650fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 03/32] fix: keep the data type of the values in
 search_value/octree_align

---
 ocnn/nn/octree_align.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index ec3bc74..49ab853 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -30,7 +30,8 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
   found = key[idx] == query
 
   # assign the found value to the output
-  out = torch.zeros(query.shape[0], value.shape[1], device=value.device)
+  out = torch.zeros(query.shape[0], value.shape[1],
+                    dtype=value.dtype, device=value.device)
   out[found] = value[idx[found]]
   return out
 
-- 
2.43.0


From 9bac4eb1d4a2f3f0318cccd868eb7df002a7dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 04/32] fix: pad the output of octree_avg_pool with stride 2 to
 all octree nodes

---
 ocnn/nn/octree_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index c4c6f75..f30595e 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -98,6 +98,10 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
 
   mat = torch.sparse_coo_tensor(indices, val, [N2, N1], device=data.device)
   out = torch.sparse.mm(mat, data)
+
+  # pad the empty nodes, as in `octree_max_pool`
+  if stride == 2 and not nempty:
+    out = octree_pad(out, octree, depth-1)
   return out
 
 
-- 
2.43.0


From faef3eee92e3360b0d4f76d582f12fc9812dc07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 05/32] fix: support data types other than the default one in
 octree_avg_pool

---
 ocnn/nn/octree_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index f30595e..c8da1be 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -86,7 +86,7 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
   K = neigh.shape[1]
 
   mask = neigh >= 0
-  val = 1.0 / (torch.sum(mask, dim=1) + 1e-8)
+  val = 1.0 / (torch.sum(mask, dim=1).to(data.dtype) + 1e-8)
   mask = mask.view(-1)
   val = val.unsqueeze(1).repeat(1, K).reshape(-1)
   val = val[mask]
-- 
2.43.0


From c0887044a115f4ceba78d0a2bad137dfa44038e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 06/32] fix: do not modify the query points in OctreeInterp

---
 ocnn/nn/octree_interp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index afdfafa..9c464cd 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -121,6 +121,7 @@ class OctreeInterp(torch.nn.Module):
     # rescale points from [-1, 1] to [0, 2^depth]
     if self.rescale_pts:
       scale = 2 ** (depth - 1)
+      pts = pts.clone()  # avoid modifying the input points
       pts[:, :3] = (pts[:, :3] + 1.0) * scale
 
     return self.func(data, octree, depth, pts, self.nempty, self.bound_check)
-- 
2.43.0


From 538425c325344d7a022cc3c2e223c108b23a259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 07/32] fix: do not modify the input tensors in Points.flip and
 Points.orient_normal

---
 ocnn/octree/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 975bbe9..2273eb6 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -89,7 +89,7 @@ class Points:
       flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]
       self.normals = self.normals * flags.unsqueeze(1)
     else:
-      self.normals.abs_()
+      self.normals = self.normals.abs()
 
   def scale(self, factor: torch.Tensor):
     r''' Rescales the point cloud.
@@ -151,8 +151,11 @@ class Points:
     axis_map = {'x': 0, 'y': 1, 'z': 2}
     for x in axis:
       idx = axis_map[x]
+      # clone the tensors to avoid modifying the input data
+      self.points = self.points.clone()
       self.points[:, idx] *= -1.0
       if self.normals is not None:
+        self.normals = self.normals.clone()
         self.normals[:, idx] *= -1.0
 
   def clip(self, min: float = -1.0, max: float = 1.0, esp: float = 0.01):
-- 
2.43.0


From ae0e684e5196fb7882780704da575e58ca0bb5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 08/32] fix: construct OctreeResBlock2 with stride 2

---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index df6a994..49075a1 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -76,7 +76,7 @@ class OctreeResBlock2(torch.nn.Module):
     channelb = int(out_channels / bottleneck)
 
     if self.stride == 2:
-      self.maxpool = OctreeMaxPool(self.depth)
+      self.maxpool = OctreeMaxPool(nempty)
     self.conv3x3a = OctreeConvBnRelu(in_channels, channelb, nempty=nempty)
     self.conv3x3b = OctreeConvBn(channelb, out_channels, nempty=nempty)
     if self.in_channels != self.out_channels:
-- 
2.43.0


From 679c28218537f4741f45e562d284d8b7ac886aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 09/32] fix: pass nempty to the bottleneck of SegNet

---
 ocnn/models/segnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/models/segnet.py b/ocnn/models/segnet.py
index cedcc90..e6fe642 100644
--- a/ocnn/models/segnet.py
+++ b/ocnn/models/segnet.py
@@ -31,7 +31,8 @@ class SegNet(torch.nn.Module):
     self.pools = torch.nn.ModuleList(
         [ocnn.nn.OctreeMaxPool(nempty, return_indices) for i in range(stages)])
 
-    self.bottleneck = ocnn.modules.OctreeConvBnRelu(channels[-1], channels[-1])
+    self.bottleneck = ocnn.modules.OctreeConvBnRelu(
+        channels[-1], channels[-1], nempty=nempty)
 
     channels = channels_stages[::-1] + [channels_stages[0]]
     self.deconvs = torch.nn.ModuleList(
-- 
2.43.0


From 638a162a706109a08660213d02482bd241d1259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 10/32] fix: make OUNet constructible and runnable

---
 ocnn/models/autoencoder.py | 15 ++++++++++-----
 ocnn/models/ounet.py       |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ocnn/models/autoencoder.py b/ocnn/models/autoencoder.py
index 82be70e..1dfd24d 100644
--- a/ocnn/models/autoencoder.py
+++ b/ocnn/models/autoencoder.py
@@ -23,10 +23,13 @@ class AutoEncoder(torch.nn.Module):
     full_depth (int): The full depth of the octree.
     feature (str): The feature type of the input signal. For details of this
         argument, please refer to :class:`ocnn.modules.InputFeature`.
+    code_channel (int): The channel of the shape code. If it is not larger than
+        0, the encoded features are not projected to a shape code.
   '''
 
   def __init__(self, channel_in: int, channel_out: int, depth: int,
-               full_depth: int = 2, feature: str = 'ND'):
+               full_depth: int = 2, feature: str = 'ND',
+               code_channel: int = 64):
     super().__init__()
     self.channel_in = channel_in
     self.channel_out = channel_out
@@ -34,7 +37,7 @@ class AutoEncoder(torch.nn.Module):
     self.full_depth = full_depth
     self.feature = feature
     self.resblk_num = 2
-    self.code_channel = 64  # dim-of-code = code_channel * 2**(3*full_depth)
+    self.code_channel = code_channel  # dim-of-code = code_channel * 2**(3*full_depth)
     self.channels = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
 
     # encoder
@@ -46,11 +49,13 @@ class AutoEncoder(torch.nn.Module):
     self.downsample = torch.nn.ModuleList([ocnn.modules.OctreeConvBnRelu(
         self.channels[d], self.channels[d-1], kernel_size=[2], stride=2,
         nempty=False) for d in range(depth, full_depth, -1)])
-    self.proj = torch.nn.Linear(
-        self.channels[full_depth], self.code_channel, bias=True)
+    if self.code_channel > 0:
+      self.proj = torch.nn.Linear(
+          self.channels[full_depth], self.code_channel, bias=True)
 
     # decoder
-    self.channels[full_depth] = self.code_channel  # update `channels`
+    if self.code_channel > 0:
+      self.channels[full_depth] = self.code_channel  # update `channels`
     self.upsample = torch.nn.ModuleList([ocnn.modules.OctreeDeconvBnRelu(
         self.channels[d-1], self.channels[d], kernel_size=[2], stride=2,
         nempty=False) for d in range(full_depth+1, depth+1)])
diff --git a/ocnn/models/ounet.py b/ocnn/models/ounet.py
index 0dd81aa..621a850 100644
--- a/ocnn/models/ounet.py
+++ b/ocnn/models/ounet.py
@@ -28,7 +28,7 @@ class OUNet(AutoEncoder):
 
     convs = dict()
     depth, full_depth = self.depth, self.full_depth
-    data = self.get_input_feature(octree)
+    data = octree.get_input_feature(self.feature, nempty=False)
     convs[depth] = self.conv1(data, octree, depth)
     for i, d in enumerate(range(depth, full_depth-1, -1)):
       convs[d] = self.encoder_blks[i](convs[d], octree, d)
-- 
2.43.0


From d4862f63b5c766963b7002bd3f9b7fc1953be549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 11/32] fix: ignore the out-of-bound neighbors in
 octree_linear_pts

---
 ocnn/nn/octree_interp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 9c464cd..69ac2f5 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -72,9 +72,10 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   batch = pts[:, 3].unsqueeze(1).repeat(1, 8).view(-1, 1)
   idx = octree.search_xyzb(torch.cat([xyzn, batch], dim=1), depth, nempty)
   valid = idx > -1  # valid indices
-  if bound_check:
-    bound = torch.logical_and(xyzn >= 0, xyzn < 2**depth).all(1)
-    valid = torch.logical_and(valid, bound)
+  # The neighboring voxels of a point near the boundary can be out of bound even
+  # if the point itself is not, and their keys wrap around to the opposite side.
+  bound = torch.logical_and(xyzn >= 0, xyzn < 2**depth).all(1)
+  valid = torch.logical_and(valid, bound)
   idx = idx[valid]
 
   # 2. Build the sparse matrix
-- 
2.43.0


From 3cbb0336ecbd9715010cc5e0f50859d2688238f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 12/32] fix: keep the points on the upper boundary in the last
 voxels

---
 ocnn/octree/octree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 6801adb..c7d40b4 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -161,8 +161,10 @@ class Octree:
     scale = 2 ** (self.depth - 1)
     points = (point_cloud.points + 1.0) * scale
 
-    # get the shuffled key and sort
-    x, y, z = points[:, 0], points[:, 1], points[:, 2]
+    # get the shuffled key and sort, the points on the upper boundary belong to
+    # the last voxels
+    xyz = points.clamp(max=2 ** self.depth - 1)
+    x, y, z = xyz[:, 0], xyz[:, 1], xyz[:, 2]
     b = None if self.batch_size == 1 else point_cloud.batch_id.view(-1)
     key = xyz2key(x, y, z, b, self.depth)
     node_key, idx, counts = torch.unique(
-- 
2.43.0


From 8d35e9151f2f0af0119a9d589366e1d1ba3d5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 13/32] fix: do not modify the input list in
 resize_with_last_val

---
 ocnn/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ocnn/utils.py b/ocnn/utils.py
index b1436f7..26f0b64 100644
--- a/ocnn/utils.py
+++ b/ocnn/utils.py
@@ -173,9 +173,7 @@ def resize_with_last_val(list_in: list, num: int = 3):
   '''
 
   assert (type(list_in) is list and len(list_in) < num + 1)
-  for _ in range(len(list_in), num):
-    list_in.append(list_in[-1])
-  return list_in
+  return list_in + [list_in[-1]] * (num - len(list_in))
 
 
 def list2str(list_in: list):
-- 
2.43.0


From 85d44d5e9d26607065f8daa61548d262862174f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 14/32] fix: compare the devices in merge_octrees regardless of
 their types

---
 ocnn/octree/octree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index c7d40b4..f424020 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -569,7 +569,7 @@ def merge_octrees(octrees: List['Octree']):
   for i in range(1, octree.batch_size):
     condition = (octrees[i].depth == octree.depth and
                  octrees[i].full_depth == octree.full_depth and
-                 octrees[i].device == octree.device)
+                 torch.device(octrees[i].device) == torch.device(octree.device))
     assert condition, 'The check of merge_octrees failed'
 
   # node num
-- 
2.43.0


From 93d62e8fe04ec7b7e06392c2ac9b820fc300d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 15/32] fix: do not modify the input sample in Transform

---
 ocnn/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/dataset.py b/ocnn/dataset.py
index 55c615b..60aee57 100644
--- a/ocnn/dataset.py
+++ b/ocnn/dataset.py
@@ -69,6 +69,7 @@ class Transform:
     transformations, like normalization.
     '''
 
+    sample = sample.copy()  # avoid modifying the input sample
     xyz = torch.from_numpy(sample.pop('points'))
     normals = torch.from_numpy(sample.pop('normals'))
     sample['points'] = Points(xyz, normals)
-- 
2.43.0


From e26eb4b28c43df6f9597b349a052edb26903d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:18 +0000
Subject: [PATCH 16/32] fix: merge the predictions of chunks with an index of
 two digits or more

---
 projects/tools/seg_scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 87f6951..3650307 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -281,7 +281,7 @@ def generate_output_seg():
       prob1 = np.zeros([mask.shape[0], prob0.shape[1]])
       prob1[mask] = prob0
       prob0 = prob1                       # update prob0
-      filename_scan = filename_scan[:-8]  # remove '.chunk_x'
+      filename_scan = filename_scan.rsplit('.chunk_', 1)[0]  # remove '.chunk_x'
 
     probs[filename_scan] = probs.get(filename_scan, 0) + prob0
 
-- 
2.43.0


From 00d5370f21197e3ac45dbcdf4107362f65e5ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:52 +0000
Subject: [PATCH 17/32] fix: accept an integer batch index in xyz2key

---
 ocnn/octree/shuffled_key.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/shuffled_key.py b/ocnn/octree/shuffled_key.py
index 449d882..5685282 100644
--- a/ocnn/octree/shuffled_key.py
+++ b/ocnn/octree/shuffled_key.py
@@ -84,7 +84,8 @@ def xyz2key(x: torch.Tensor, y: torch.Tensor, z: torch.Tensor,
     key = key16 << 24 | key
 
   if b is not None:
-    b = b.long()
+    if isinstance(b, torch.Tensor):
+      b = b.long()
     key = b << 48 | key
 
   return key
-- 
2.43.0


From e1359870bf5c1c4dfb8a042bb25e6de8e433168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 18/32] fix: run the direct deconvolution on octrees without
 non-empty nodes

---
 ocnn/nn/octree_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_conv.py b/ocnn/nn/octree_conv.py
index 88be7ba..0a66f2e 100644
--- a/ocnn/nn/octree_conv.py
+++ b/ocnn/nn/octree_conv.py
@@ -415,7 +415,7 @@ class OctreeDeconv(OctreeConv):
 
     if self.direct_method:
       col = torch.mm(data, self.weights.flatten(0, 1).t())
-      col = col.view(col.shape[0], self.kdim, -1)
+      col = col.view(col.shape[0], self.kdim, self.in_conv)
       out = col2octree(
           col, octree, depth_col, self.kernel, self.stride, self.nempty)
     else:
-- 
2.43.0


From c39ab370c2fd5ac9cdcdcf25f9fb9675c721074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:23 +0000
Subject: [PATCH 19/32] fix: align with octree layers that have no nodes

---
 ocnn/nn/octree_align.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index 49ab853..dccfd44 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -20,14 +20,11 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
     query (torch.Tensor): The query tensor, which also contains shuffled keys.
   '''
 
-  # deal with out-of-bound queries, the indices of these queries
-  # returned by torch.searchsorted equal to `key.shape[0]`
-  out_of_bound = query > key[-1]
-
-  # search
+  # search, the indices of out-of-bound queries returned by torch.searchsorted
+  # equal to `key.shape[0]`
   idx = torch.searchsorted(key, query)
-  idx[out_of_bound] = -1   # to avoid overflow when executing the following line
-  found = key[idx] == query
+  found = idx < key.shape[0]
+  found[found.clone()] = key[idx[found]] == query[found]
 
   # assign the found value to the output
   out = torch.zeros(query.shape[0], value.shape[1],
-- 
2.43.0


From 1324a85a5734b45baa3dfecc7459e5d92bdba5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:50 +0000
Subject: [PATCH 20/32] fix: the ScanNet evaluation configuration keeps the
 predictions of all points

---
 projects/configs/seg_scannet_eval.yaml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/projects/configs/seg_scannet_eval.yaml b/projects/configs/seg_scannet_eval.yaml
index 25b310b..96b3392 100644
--- a/projects/configs/seg_scannet_eval.yaml
+++ b/projects/configs/seg_scannet_eval.yaml
@@ -43,3 +43,7 @@ MODEL:
   nout: 21
   nempty: True
   interp: nearest
+
+LOSS:
+  num_class: 21
+  mask: -1              # keep the predictions of all points
-- 
2.43.0


From c22f34524618dda4f44b8432f2259195a37d399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 21/32] fix: moving Points to another device copies batch_npt

---
 ocnn/octree/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 2273eb6..293f04d 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -243,7 +243,8 @@ class Points:
 
     # Construct a new Points on the specified device
     points = Points(torch.zeros(1, 3, device=device), batch_size=self.batch_size)
-    points.batch_npt = self.batch_npt
+    if self.batch_npt is not None:
+      points.batch_npt = self.batch_npt.clone()
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
       points.normals = self.normals.to(device, non_blocking=non_blocking)
-- 
2.43.0


From b36e0ffeb2f0c87f1681e7b5b2ed4d53eb603c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:57 +0000
Subject: [PATCH 22/32] fix: moving an octree created with a device name to
 this device returns the octree

---
 ocnn/octree/octree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index f424020..a388467 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -521,7 +521,7 @@ class Octree:
       device = torch.device(device)
 
     #  If on the save device, directly retrun self
-    if self.device == device:
+    if torch.device(self.device) == device:
       return self
 
     def list_to_device(prop):
-- 
2.43.0


From df3af64d2d84cbe35092d3f21d24cd3187182a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 23/32] fix: re-computation checkpoints keep the gradients of
 blocks applied to inputs without gradient

---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index 49075a1..a2a70b8 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -118,7 +118,7 @@ class OctreeResBlocks(torch.nn.Module):
     for i in range(self.resblk_num):
       if self.use_checkpoint:
         data = torch.utils.checkpoint.checkpoint(
-            self.resblks[i], data, octree, depth)
+            self.resblks[i], data, octree, depth, use_reentrant=False)
       else:
         data = self.resblks[i](data, octree, depth)
     return data
-- 
2.43.0


From f89c1b1081b1eb51926d1f7841bdfa6f49a089d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 24/32] fix: keep the colors finite in the ScanNet augmentation
 when a channel has one single value

---
 projects/datascts/scannet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/datascts/scannet.py b/projects/datascts/scannet.py
index 8427a33..2d1d84d 100644
--- a/projects/datascts/scannet.py
+++ b/projects/datascts/scannet.py
@@ -26,8 +26,9 @@ def color_distort(color, trans_range_ratio, jitter_std):
     hi = color[:, :3].max(0, keepdims=True)
     assert hi.max() > 1
 
-    scale = 255 / (hi - lo)
-    contrast_feats = (color[:, :3] - lo) * scale
+    # keep the channels with one single value unchanged: their contrast is 0
+    scale = 255 / np.where(hi > lo, hi - lo, 1)
+    contrast_feats = np.where(hi > lo, (color[:, :3] - lo) * scale, color[:, :3])
 
     blend_factor = random.random()
     color[:, :3] = (1 - blend_factor) * color + blend_factor * contrast_feats
-- 
2.43.0


From c18925a82cf12c82df6db876412d658a7a8a04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 25/32] fix: accept query points of any memory layout in the
 linear interpolation

---
 ocnn/nn/octree_interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 69ac2f5..d415f6e 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -68,7 +68,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   xyzi = xyzf.floor()       # the integer part  (N, 3)
   frac = xyzf - xyzi        # the fraction part (N, 3)
 
-  xyzn = (xyzi.unsqueeze(1) + grid).view(-1, 3)
+  xyzn = (xyzi.unsqueeze(1) + grid).reshape(-1, 3)
   batch = pts[:, 3].unsqueeze(1).repeat(1, 8).view(-1, 1)
   idx = octree.search_xyzb(torch.cat([xyzn, batch], dim=1), depth, nempty)
   valid = idx > -1  # valid indices
@@ -86,7 +86,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   indices = torch.stack([ids, idx], dim=0).long()
 
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
-  weight = frac.prod(dim=2).abs().view(-1)     # (8*N,)
+  weight = frac.prod(dim=2).abs().reshape(-1)  # (8*N,)
   weight = weight[valid]
 
   h = data.shape[0]
-- 
2.43.0


From 0db06617d27796c217c1b82ae13dbe2ff8aef538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:12 +0000
Subject: [PATCH 26/32] fix: interpolate linearly when the data and the points
 have different types

---
 ocnn/nn/octree_interp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index d415f6e..97c82e1 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -88,6 +88,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
   weight = frac.prod(dim=2).abs().reshape(-1)  # (8*N,)
   weight = weight[valid]
+  weight = weight.to(data.dtype)  # the points and data may have different types
 
   h = data.shape[0]
   mat = torch.sparse_coo_tensor(indices, weight, [npt, h], device=device)
-- 
2.43.0


From e8fb459901174601d9cdbc6db0330369104d22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:12 +0000
Subject: [PATCH 27/32] fix: local points of octree nodes whose averaged point
 lies on the upper boundary

---
 ocnn/octree/octree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index a388467..20e2f31 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -455,7 +455,11 @@ class Octree:
       features.append(self.normals[depth])
 
     if 'L' in feature or 'D' in feature:
-      local_points = self.points[depth].frac() - 0.5
+      # do not use `frac` since the averaged points can be on the upper boundary
+      # of the octree nodes
+      x, y, z, _ = self.xyzb(depth, nempty=True)
+      xyz = torch.stack([x, y, z], dim=1)
+      local_points = self.points[depth] - xyz - 0.5
 
     if 'D' in feature:
       dis = torch.sum(local_points * self.normals[depth], dim=1, keepdim=True)
-- 
2.43.0


From 321919fe2f09d3f4f861181b24336f8f0e0dd3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:12 +0000
Subject: [PATCH 28/32] fix: rotate point clouds of any floating type

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 293f04d..9ed973f 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -126,7 +126,7 @@ class Points:
     rotz = torch.Tensor([[cos[2], sin[2], 0], [-sin[2], cos[2], 0], [0, 0, 1]])
     rot = rotx @ roty @ rotz
 
-    rot = rot.to(self.device)
+    rot = rot.to(self.points)  # the same device and type as the points
     self.points = self.points @ rot
     if self.normals is not None:
       self.normals = self.normals @ rot
-- 
2.43.0


From 43ea3f326d0c9af8c26bee46d68ea3a976e5279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:12 +0000
Subject: [PATCH 29/32] fix: reject data of a wrong shape in octree2col and the
 average pooling

---
 ocnn/nn/octree2col.py  | 3 +++
 ocnn/nn/octree_pool.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ocnn/nn/octree2col.py b/ocnn/nn/octree2col.py
index 2e714f2..24553dc 100644
--- a/ocnn/nn/octree2col.py
+++ b/ocnn/nn/octree2col.py
@@ -31,6 +31,9 @@ def octree2col(data: torch.Tensor, octree: Octree, depth: int,
         octree nodes.
   '''
 
+  nnum = octree.nnum_nempty[depth] if nempty else octree.nnum[depth]
+  assert data.shape[0] == nnum, 'The shape of input data is wrong.'
+
   neigh = octree.get_neigh(depth, kernel_size, stride, nempty)
   size = (neigh.shape[0], neigh.shape[1], data.shape[1])
   out = torch.zeros(size, dtype=data.dtype, device=data.device)
diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index c8da1be..f13db5f 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -79,6 +79,9 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
         octree nodes.
   '''
 
+  nnum = octree.nnum_nempty[depth] if nempty else octree.nnum[depth]
+  assert data.shape[0] == nnum, 'The shape of input data is wrong.'
+
   neigh = octree.get_neigh(depth, kernel, stride, nempty)
 
   N1 = data.shape[0]
-- 
2.43.0


From 48a6b207233061080d525b4e1be359af7c199314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:47 +0000
Subject: [PATCH 30/32] fix: split scenes into chunks by their size, not by
 their position

---
 projects/tools/seg_scannet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/tools/seg_scannet.py b/projects/tools/seg_scannet.py
index 3650307..3548eb7 100644
--- a/projects/tools/seg_scannet.py
+++ b/projects/tools/seg_scannet.py
@@ -195,7 +195,7 @@ def generate_chunks(filename, point_cloud, cropsize=10.0, stride=5.0):
   chunk_id = 0
   min_size = 3000
   chunk_num = np.ceil(np.maximum(
-      bbmax - cropsize, 0) / stride).astype(np.int32) + 1
+      bbox - cropsize, 0) / stride).astype(np.int32) + 1
   for i in range(chunk_num[0]):
     for j in range(chunk_num[1]):
       for k in range(chunk_num[2]):
-- 
2.43.0


From 2015e5f060a1fd369aa59907eb6f33c47c009aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:57 +0000
Subject: [PATCH 31/32] fix: interpolate zero, not NaN, at points without
 neighbors in float16

---
 ocnn/nn/octree_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index 97c82e1..9884bc9 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -97,7 +97,8 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
   output = torch.sparse.mm(mat, data)
   ones = torch.ones(h, 1, dtype=data.dtype, device=device)
   norm = torch.sparse.mm(mat, ones)
-  output = torch.div(output, norm + 1e-12)
+  norm = norm.masked_fill(norm == 0, 1.0)  # 1e-12 would be lost in float16
+  output = torch.div(output, norm)
   return output
 
 
-- 
2.43.0


From 5ce73fba9d86bcb8aa5e00b07723200c411d41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:29 +0000
Subject: [PATCH 32/32] fix: put the points of the upper boundary into the last
 cells in half precision

---
 ocnn/octree/octree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 20e2f31..54205d6 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -163,7 +163,7 @@ class Octree:
 
     # get the shuffled key and sort, the points on the upper boundary belong to
     # the last voxels
-    xyz = points.clamp(max=2 ** self.depth - 1)
+    xyz = points.long().clamp(max=2 ** self.depth - 1)
     x, y, z = xyz[:, 0], xyz[:, 1], xyz[:, 2]
     b = None if self.batch_size == 1 else point_cloud.batch_id.view(-1)
     key = xyz2key(x, y, z, b, self.depth)
-- 
2.43.0

