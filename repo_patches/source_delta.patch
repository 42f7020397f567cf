From 4aad4e33965d1f0a4594a26bcec35fde66de77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:40 +0000
Subject: [PATCH 01/35] fix: read the whole message header and fail when the
 peer closes the connection

recv() may return fewer bytes than asked for, so a fragmented 16-byte header broke the framing of the
stream, and a connection closed in the middle of a message made recv_data spin for ever.
---
 federation/transfer_inst.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..815e5b1 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -33,18 +33,29 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
+        msg = TransferInst.recv_exactly(cs, 16)
         length = int(msg[:16])
         # LOGGER.debug('len of recv_msg is {}'.format(length))
+        full_msg = TransferInst.recv_exactly(cs, length)
+
+        # LOGGER.debug('true len of recv_msg is {}'.format(length))
+        return pickle.loads(full_msg)
+
+    @staticmethod
+    def recv_exactly(cs, length):
+        """
+        receive exactly length bytes, recv may return less than asked for, and returns nothing once the peer has closed
+        """
         full_msg = b''
         nowsize = len(full_msg)
         while nowsize < length:
             more = cs.recv(length - nowsize)
+            if len(more) == 0:
+                raise ConnectionError('connection closed by peer, {} of {} bytes received'.format(nowsize, length))
             full_msg = full_msg + more
             nowsize += len(more)
 
-        # LOGGER.debug('true len of recv_msg is {}'.format(length))
-        return pickle.loads(full_msg)
+        return full_msg
 
 
 class TransferInstGuest(TransferInst):
-- 
2.43.0


From d83226a6a4037d137ca6c11d2d7ca95103997350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 02/35] fix: column statistics return one summary per partition
 and split points are returned

---
 ml/feature/binning/quantile_binning.py | 1 +
 ml/statistic/statics.py                | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..8046283 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -67,6 +67,7 @@ class QuantileBinning(Binning):
                     split_point.append(s_p)
             split_points[col_name] = split_point
         self.split_points = split_points
+        return split_points
 
     @staticmethod
     def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..8f0cdce 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -200,7 +200,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -238,7 +238,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
-- 
2.43.0


From fe2bd12089850988d75a96a522c464a791bb2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 03/35] fix: log-cosh loss starts at the mean, fair loss
 accepts no parameter

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..3ef6fc7 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -146,7 +146,7 @@ class FairLoss(object):
 
     def __init__(self, c):
         if c is None:
-            self.c = const.FLOAT_ZERO
+            self.c = consts.FLOAT_ZERO
         else:
             self.c = c
 
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From 3316c3b9c79269cd7d5b4fe631511f885cea2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 04/35] fix: absolute error gradient is zero at the label

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 3ef6fc7..1ef933e 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -76,7 +76,7 @@ class LeastAbsoluteErrorLoss(object):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
             diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
+            diff[diff < -consts.FLOAT_ZERO] = -1
             diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
 
             return diff
@@ -84,7 +84,7 @@ class LeastAbsoluteErrorLoss(object):
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From bb82ad981df1a7fd19423b751676537596029b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:05 +0000
Subject: [PATCH 05/35] fix: binning and training leave the caller's samples
 unchanged

---
 ml/feature/binning/base_binning.py | 5 ++++-
 ml/tree/boosting_tree.py           | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..b0b515e 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,12 +134,13 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
+        instances = copy.copy(instances)
         instances.features = sparse_vector
         return instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
+        features = copy.copy(instances.features)
         for col_idx, col_value in enumerate(features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
@@ -146,6 +148,7 @@ class Binning:
                 bin_num = Binning.get_bin_num(col_value, split_points)
                 features[col_idx] = bin_num
 
+        instances = copy.copy(instances)
         instances.features = features
         return instances
 
diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..0983f1e 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,5 +1,6 @@
 
 from computing.d_table import DTable
+import copy
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
 from ml.utils import consts
@@ -62,6 +63,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From b7bcd787c753ee4f40dacca280b6dbdc0eec1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:33 +0000
Subject: [PATCH 06/35] fix: keep the validation predictions in the component's
 output

---
 ml/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/model_base.py b/ml/model_base.py
index 933e193..409ae17 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -105,7 +105,7 @@ class ModelBase(object):
                         predict_output_res = eval_data_predict_res.mapValues(lambda d: d + ["validation"])
 
                         if self.data_output:
-                            self.data_output.union(predict_output_res)
+                            self.data_output = self.data_output.union(predict_output_res)
                         else:
                             self.data_output = predict_output_res
 
@@ -134,7 +134,7 @@ class ModelBase(object):
                     eval_data_output = eval_data_output.mapValues(lambda value: value + ["validation"])
 
                 if self.data_output and eval_data_output:
-                    self.data_output.union(eval_data_output)
+                    self.data_output = self.data_output.union(eval_data_output)
                 elif not self.data_output and eval_data_output:
                     self.data_output = eval_data_output
 
-- 
2.43.0


From 41643840b3c80704e6f4f95898f63922ac956631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:33 +0000
Subject: [PATCH 07/35] fix: do not send node statistics and leaf weights to
 the hosts

---
 ml/tree/hetero_decision_tree_guest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..40488b5 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,10 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        # hosts need the structure only: node statistics and weights stay with the guest
+        mask_tree = [Node(id=node.id, sitename=node.sitename, fid=node.fid, bid=node.bid, is_leaf=node.is_leaf,
+                          left_nodeid=node.left_nodeid, right_nodeid=node.right_nodeid) for node in self.tree_]
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From 36d07a81d787c07852aeb6d919d38bd1d0c45b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:47 +0000
Subject: [PATCH 08/35] fix: histograms fill the bin of zero when no feature
 mask is given

---
 ml/tree/feateur_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/tree/feateur_histogram.py b/ml/tree/feateur_histogram.py
index ca875c5..a529987 100644
--- a/ml/tree/feateur_histogram.py
+++ b/ml/tree/feateur_histogram.py
@@ -148,7 +148,7 @@ class FeatureHistogram(object):
 
         for nid in range(node_num):
             for fid in range(bin_split_points.shape[0]):
-                if valid_features is not None and valid_features[fid] is True:
+                if valid_features is None or valid_features[fid] is True:
                     sparse_point = bin_sparse_points[fid]
                     node_histograms[nid][fid][sparse_point][0] += zero_opt_node_sum[nid][0] - zero_optim[nid][fid][0]
                     node_histograms[nid][fid][sparse_point][1] += zero_opt_node_sum[nid][1] - zero_optim[nid][fid][1]
-- 
2.43.0


From 2bf5b6d605ab3f30a226845a2ac2f75ea5e1d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:23 +0000
Subject: [PATCH 09/35] fix: encode floats exactly (round the exponent up, not
 down)

---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..e5100d6 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -68,7 +68,7 @@ class FixedPointNumber(object):
                  or isinstance(scalar, np.float32) or isinstance(scalar, np.float64):               
                 flt_exponent = math.frexp(scalar)[1]
                 lsb_exponent = cls.FLOAT_MANTISSA_BITS - flt_exponent
-                exponent = math.floor(lsb_exponent / cls.LOG2_BASE)
+                exponent = math.ceil(lsb_exponent / cls.LOG2_BASE)
             else:
                 raise TypeError("Don't know the precision of type %s."
                                 % type(scalar))
-- 
2.43.0


From 28424fc4be5890bdefb2dd255781e11f9b1dd367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:23 +0000
Subject: [PATCH 10/35] fix: a requested precision gives a unit no larger than
 it

---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index e5100d6..a2e56f7 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -73,7 +73,7 @@ class FixedPointNumber(object):
                 raise TypeError("Don't know the precision of type %s."
                                 % type(scalar))
         else:
-            exponent = math.floor(math.log(precision, cls.BASE))        
+            exponent = -math.floor(math.log(precision, cls.BASE))        
         
         if max_exponent is not None:
             exponent = max(max_exponent, exponent)
-- 
2.43.0


From 4992bab06b96cb1faff083147b9a669c6c91f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 11/35] fix: fixed-point arithmetic keeps the modulus the
 numbers were encoded with

---
 ml/secureprotol/fixedpoint.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index a2e56f7..7772493 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -125,9 +125,13 @@ class FixedPointNumber(object):
         
         return x, y
 
+    def __check_modulus(self, other):
+        if self.n != other.n:
+            raise ValueError('Attempted to combine numbers encoded with different moduli')
+
     def __truncate(self, a):
         scalar = a.decode()
-        return FixedPointNumber.encode(scalar)    
+        return FixedPointNumber.encode(scalar, a.n, a.max_int)    
 
     def __add__(self, other):       
         if isinstance(other, FixedPointNumber):
@@ -148,7 +152,7 @@ class FixedPointNumber(object):
     def __rsub__(self, other):
         x = self.__sub__(other)
         x = -1 * x.decode()
-        return self.encode(x)
+        return self.encode(x, self.n, self.max_int)
     
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -169,7 +173,7 @@ class FixedPointNumber(object):
    
     def __rtruediv__(self, other):
         res = 1.0 / self.__truediv__(other).decode() 
-        return FixedPointNumber.encode(res)
+        return FixedPointNumber.encode(res, self.n, self.max_int)
  
     def __lt__(self, other):
         x = self.decode()
@@ -239,12 +243,13 @@ class FixedPointNumber(object):
             return False   
   
     def __add_fixpointnumber(self, other):        
+        self.__check_modulus(other)
         x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.Q        
-        return FixedPointNumber(encoding, x.exponent)
+        encoding = (x.encoding + y.encoding) % self.n        
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
@@ -256,12 +261,13 @@ class FixedPointNumber(object):
         return self.__add_scalar(scalar)    
   
     def __mul_fixpointnumber(self, other):     
-        encoding = (self.encoding * other.encoding) % self.Q
+        self.__check_modulus(other)
+        encoding = (self.encoding * other.encoding) % self.n
         exponet = self.exponent + other.exponent
-        mul_fixedpoint = FixedPointNumber(encoding, exponet)            
+        mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)            
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
         return truncate_mul_fixedpoint
    
     def __mul_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__mul_fixpointnumber(encoded)
-- 
2.43.0


From db9c0b16ddcb5557c673ad14f9452f420a2c037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:53 +0000
Subject: [PATCH 12/35] fix: fixed-point arithmetic reports overflow instead of
 wrapping around

---
 ml/secureprotol/fixedpoint.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 7772493..fbdfb04 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -89,19 +89,28 @@ class FixedPointNumber(object):
     def decode(self):
         """return decode plaintext.
         """
+        return self.__mantissa() * pow(self.BASE, -self.exponent)
+
+    def __mantissa(self):
+        """return the signed integer the encoding stands for.
+        """
         if self.encoding >= self.n:
             # Should be mod n
             raise ValueError('Attempted to decode corrupted number')
         elif self.encoding <= self.max_int:
             # Positive
-            mantissa = self.encoding
+            return self.encoding
         elif self.encoding >= self.n - self.max_int:
             # Negative
-            mantissa = self.encoding - self.n
+            return self.encoding - self.n
         else:
             raise OverflowError('Overflow detected in decode number')
 
-        return mantissa * pow(self.BASE, -self.exponent)
+    def __in_range(self, mantissa):
+        if abs(mantissa) > self.max_int:
+            raise OverflowError('Overflow detected: result needs to be within +/- %d but got %d'
+                                % (self.max_int, mantissa))
+        return mantissa % self.n
  
     def increase_exponent_to(self, new_exponent):
         """return FixedPointNumber: new encoding with same value but having great exponent.
@@ -111,7 +120,7 @@ class FixedPointNumber(object):
                              'old exponent %i' % (new_exponent, self.exponent))
             
         factor = pow(self.BASE, new_exponent - self.exponent)
-        new_encoding = self.encoding * factor % self.n
+        new_encoding = self.__in_range(self.__mantissa() * factor)
         
         return FixedPointNumber(new_encoding, new_exponent, self.n, self.max_int)
 
@@ -245,7 +254,7 @@ class FixedPointNumber(object):
     def __add_fixpointnumber(self, other):        
         self.__check_modulus(other)
         x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.n        
+        encoding = self.__in_range(x.__mantissa() + y.__mantissa())
         return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
@@ -262,7 +271,7 @@ class FixedPointNumber(object):
   
     def __mul_fixpointnumber(self, other):     
         self.__check_modulus(other)
-        encoding = (self.encoding * other.encoding) % self.n
+        encoding = self.__in_range(self.__mantissa() * other.__mantissa())
         exponet = self.exponent + other.exponent
         mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)            
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
-- 
2.43.0


From 7b31bf35f3e7b89d18772e87507986a22dc6b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:09 +0000
Subject: [PATCH 13/35] fix: key generation terminates for an odd number of
 bits

---
 ml/secureprotol/fate_paillier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fate_paillier.py b/ml/secureprotol/fate_paillier.py
index 91e2d33..a574329 100644
--- a/ml/secureprotol/fate_paillier.py
+++ b/ml/secureprotol/fate_paillier.py
@@ -36,7 +36,7 @@ class PaillierKeypair(object):
             p = gmpy_math.getprimeover(n_length // 2)
             q = p
             while q == p:
-                q = gmpy_math.getprimeover(n_length // 2)
+                q = gmpy_math.getprimeover(n_length - n_length // 2)
             n = p * q
             n_len = n.bit_length()
         
-- 
2.43.0


From df41c8aa3238c30b008580c3ad6c565eca4bd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:09 +0000
Subject: [PATCH 14/35] fix: affine key generation terminates when the
 multiplier gets no bits

---
 ml/secureprotol/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/affine.py b/ml/secureprotol/affine.py
index 5e82edf..5a30271 100644
--- a/ml/secureprotol/affine.py
+++ b/ml/secureprotol/affine.py
@@ -33,7 +33,7 @@ class AffineCipher(object):
         if b_ratio is None:
             b_ratio = random.SystemRandom().random()
         while True:
-            a = random.SystemRandom().getrandbits(int(key_size * a_ratio))
+            a = random.SystemRandom().getrandbits(max(1, int(key_size * a_ratio)))
             if math.gcd(n, a) == 1:
                 break
         b = random.SystemRandom().getrandbits(int(key_size * b_ratio))
-- 
2.43.0


From d133e3e0adb36d2175fa88589241dcb8576ef327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:09 +0000
Subject: [PATCH 15/35] fix: recursive_encrypt returns the ciphertexts and
 accepts tables

---
 ml/secureprotol/encrypt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/secureprotol/encrypt.py b/ml/secureprotol/encrypt.py
index 7a17a73..564ca1a 100644
--- a/ml/secureprotol/encrypt.py
+++ b/ml/secureprotol/encrypt.py
@@ -97,7 +97,7 @@ class Encrypt(object):
         if not isinstance(A, np.ndarray) and not isinstance(A, list):
             data_dict = A.collect()
             data_dict = dict(data_dict)
-            A = data_dict.values()
+            A = list(data_dict.values())
             A = np.array(A)
 
         if isinstance(A, list):
@@ -112,7 +112,7 @@ class Encrypt(object):
             else:
                 encrypted_term = self.encrypt_list(row)
                 encrypt_row.append(encrypted_term)
-        return np.array(encrypt_row, dtype=np.float64)
+        return np.array(encrypt_row)
 
 
 class RsaEncrypt(Encrypt):
-- 
2.43.0


From cd1d31928a344e502091756e6c386116894132d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:09 +0000
Subject: [PATCH 16/35] fix: weight convergence remembers the weights, not the
 caller's array

---
 ml/optim/convergence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/optim/convergence.py b/ml/optim/convergence.py
index 57ad830..805cf9e 100644
--- a/ml/optim/convergence.py
+++ b/ml/optim/convergence.py
@@ -74,11 +74,11 @@ class WeightDiffConverge(ConvergeFunction):
 
     def is_converge(self, weight):
         if self.pre_weight is None:
-            self.pre_weight = weight
+            self.pre_weight = np.array(weight)
             return False
 
         weight_diff = fate_operator.norm(self.pre_weight - weight)
-        self.pre_weight = weight
+        self.pre_weight = np.array(weight)
         if weight_diff < self.eps * np.max([fate_operator.norm(weight), 1]):
             return True
         return False
-- 
2.43.0


From c83e1137e6d3245978dccb49468ae97c2e468426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:09 +0000
Subject: [PATCH 17/35] fix: encryption modes keep rows that were not in the
 previous call

---
 ml/secureprotol/encrypt_mode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/secureprotol/encrypt_mode.py b/ml/secureprotol/encrypt_mode.py
index ca0ae05..6023b6a 100644
--- a/ml/secureprotol/encrypt_mode.py
+++ b/ml/secureprotol/encrypt_mode.py
@@ -70,6 +70,7 @@ class EncryptModeCalculator(object):
         """
         
         if self.prev_data is None or self.mode == "strict" \
+                or input_data.subtractByKey(self.prev_data).count() > 0 \
                 or (self.mode == "balance" and self.gen_random_number() <= self.re_encrypted_rate + consts.FLOAT_ZERO):
             new_data = input_data.mapValues(self.encrypt_row)
         else:
-- 
2.43.0


From 5940d224c5ef4048c2313712c90688f368585044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:24 +0000
Subject: [PATCH 18/35] fix: quantile sketch keeps the samples greater than the
 inserted batch

---
 ml/feature/quantile_summaries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..9eccc9d 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -97,6 +97,8 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        # keep the samples greater than every inserted value
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
-- 
2.43.0


From dcfbaf9188d70046db421290df6afd06b99f33b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:24 +0000
Subject: [PATCH 19/35] fix: quantile sketch ignores every value that is not
 numeric

---
 ml/feature/quantile_summaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 9eccc9d..a294f35 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -61,7 +61,7 @@ class QuantileSummaries(object):
 
         try:
             x = float(x)
-        except ValueError:
+        except (ValueError, TypeError):
             return
 
         self.head_sampled.append(x)
-- 
2.43.0


From b3f0c659c6508e8b3f0d536ffb3fa56dcf3deb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 20/35] fix: quantile queries return the sample closest to the
 rank, exact when the error is zero

---
 ml/feature/quantile_summaries.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index a294f35..3f98fea 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -183,17 +183,23 @@ class QuantileSummaries(object):
             return self.sampled[-1].value
 
         rank = math.ceil(quantile * self.count)
-        target_error = math.ceil(self.error * self.count)
+        return self._query_rank(rank)
+
+    def _query_rank(self, rank):
+        """
+        Return the sample whose possible ranks are closest to the given one
+        """
         min_rank = 0
-        i = 1
-        while i < len(self.sampled) - 1:
-            cur_sample = self.sampled[i]
+        best_sample = None
+        best_distance = None
+        for cur_sample in self.sampled:
             min_rank += cur_sample.g
             max_rank = min_rank + cur_sample.delta
-            if max_rank - target_error <= rank <= min_rank + target_error:
-                return cur_sample.value
-            i += 1
-        return self.sampled[-1].value
+            distance = max(max_rank - rank, rank - min_rank)
+            if best_distance is None or distance < best_distance:
+                best_sample = cur_sample
+                best_distance = distance
+        return best_sample.value
 
     def _compress_immut(self, merge_threshold):
         if not self.sampled:
-- 
2.43.0


From d3d3e6520e1a05c82df1305d55520be19e7594c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 21/35] fix: sparse quantile queries count zeros, abnormal
 values and buffered values correctly

---
 ml/feature/quantile_summaries.py | 64 ++++++++++++++++----------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 3f98fea..b48de1b 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -185,9 +185,9 @@ class QuantileSummaries(object):
         rank = math.ceil(quantile * self.count)
         return self._query_rank(rank)
 
-    def _query_rank(self, rank):
+    def _query_rank(self, rank, is_candidate=lambda value: True):
         """
-        Return the sample whose possible ranks are closest to the given one
+        Return the candidate sample whose possible ranks are closest to the given one
         """
         min_rank = 0
         best_sample = None
@@ -195,6 +195,8 @@ class QuantileSummaries(object):
         for cur_sample in self.sampled:
             min_rank += cur_sample.g
             max_rank = min_rank + cur_sample.delta
+            if not is_candidate(cur_sample.value):
+                continue
             distance = max(max_rank - rank, rank - min_rank)
             if best_distance is None or distance < best_distance:
                 best_sample = cur_sample
@@ -242,51 +244,49 @@ class SparseQuantileSummaries(QuantileSummaries):
         # Compare with the sparse point, static the number of each part.
         self.smaller_num = 0
         self.bigger_num = 0
+        self.ignored_num = 0
         self._total_count = 0
 
     def set_total_count(self, total_count):
         self._total_count = total_count
 
     def insert(self, x):
-        if x < consts.FLOAT_ZERO:
+        accepted = self.count + len(self.head_sampled)
+        super(SparseQuantileSummaries, self).insert(x)
+        if self.count + len(self.head_sampled) == accepted:
+            self.ignored_num += 1
+        elif float(x) < consts.FLOAT_ZERO:
             self.smaller_num += 1
-        elif x >= consts.FLOAT_ZERO:
+        else:
             self.bigger_num += 1
-        super(SparseQuantileSummaries, self).insert(x)
 
     def query(self, quantile):
-        if self.zero_lower_bound <= quantile <= self.zero_upper_bound:
-            return 0.0
+        if self.head_sampled:
+            self.compress()
+
+        zeros_num = self.zeros_num
+        if zeros_num == 0 or quantile < 0 or quantile > 1:
+            return super(SparseQuantileSummaries, self).query(quantile)
 
-        non_zero_quantile = self._convert_query_percentile(quantile)
-        result = super(SparseQuantileSummaries, self).query(non_zero_quantile)
-        return result
+        # rank among all values, zeros come after the smaller ones
+        rank = max(1, math.ceil(quantile * (self.count + zeros_num)))
+        if rank <= self.smaller_num:
+            return self._query_rank(rank, lambda value: value < consts.FLOAT_ZERO)
+        if rank <= self.smaller_num + zeros_num:
+            return 0.0
+        return self._query_rank(rank - zeros_num, lambda value: value >= consts.FLOAT_ZERO)
 
     def merge(self, other):
         self.smaller_num += other.smaller_num
         self.bigger_num += other.bigger_num
+        self.ignored_num += other.ignored_num
         super(SparseQuantileSummaries, self).merge(other)
 
-    def _convert_query_percentile(self, quantile):
-        zeros_count = self._total_count - self.count
-        if zeros_count == 0:
-            return quantile
-
-        if quantile < self.zero_lower_bound:
-            return (self._total_count / self.count) * quantile
-
-        return (quantile - self.zero_upper_bound + self.zero_lower_bound) / (
-            1 - self.zero_upper_bound + self.zero_lower_bound)
-
-    @property
-    def zero_lower_bound(self):
-        if self.smaller_num == 0:
-            return 0.0
-        return self.smaller_num / self._total_count
-
     @property
-    def zero_upper_bound(self):
-        if self.bigger_num == 0:
-            return self._total_count
-        zeros_num = self._total_count - self.smaller_num - self.bigger_num
-        return (self.smaller_num + zeros_num) / self._total_count
+    def zeros_num(self):
+        """
+        Number of zeros which have not been inserted
+        """
+        if 0 in self.abnormal_list:
+            return 0
+        return max(0, self._total_count - self.count - self.ignored_num)
-- 
2.43.0


From fe1c523666fc36ee6b667dce0498a395c5e8a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:34 +0000
Subject: [PATCH 22/35] fix: binning of selected sparse columns and with
 supplied split points

---
 ml/feature/binning/base_binning.py     | 6 +++---
 ml/feature/binning/quantile_binning.py | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index b0b515e..78ea2bc 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -39,7 +39,7 @@ class Binning:
         else:
             self.abnormal_list = abnormal_list
         self.iv_result = None
-        self.splite_points = None
+        self.split_points = None
     
     def _init_cols(self, data_instances: DTable):
 
@@ -105,9 +105,9 @@ class Binning:
         bin_sparse = self.get_sparse_bin(transform_cols_idx, split_points)
         split_points_result = []
         for idx, col_name in enumerate(self.header):
-            if col_name not in self.split_points:
+            if col_name not in split_points:
                 continue
-            s_ps = self.split_points[col_name]
+            s_ps = split_points[col_name]
             s_ps = np.array(s_ps)
             split_points_result.append(s_ps)
         split_points_result = np.array(split_points_result)
diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 8046283..109277e 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -146,6 +146,8 @@ class QuantileBinning(Binning):
                 data_generator = instance.features.get_all_data()
                 for col_idx, col_value in data_generator:
                     col_name = header[col_idx]
+                    if col_name not in summary_dict:
+                        continue
                     summary = summary_dict[col_name]
                     summary.insert(col_value)
 
-- 
2.43.0


From 28ecfb63cc08e6eba0934f3a912e5ebe5c6571a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:37 +0000
Subject: [PATCH 23/35] fix: a blank line in a csv file is no row

---
 i_o/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/i_o/utils.py b/i_o/utils.py
index 2f3d3fc..27087c7 100644
--- a/i_o/utils.py
+++ b/i_o/utils.py
@@ -30,7 +30,9 @@ def read_from_csv_with_lable(csv_address: str):
 
     with open(csv_address) as file:
         for line in file:
-            rows.append(line.rstrip("\n"))
+            # a blank line (usually at the end of the file) holds no row
+            if line.strip():
+                rows.append(line.rstrip("\n"))
     
     header = rows[0].split(',')
 
@@ -83,7 +85,9 @@ def read_from_csv_with_no_lable(csv_address: str):
 
     with open(csv_address) as file:
         for line in file:
-            rows.append(line.rstrip("\n"))
+            # a blank line (usually at the end of the file) holds no row
+            if line.strip():
+                rows.append(line.rstrip("\n"))
     
     header = rows[0].split(',')
 
-- 
2.43.0


From 16278ee4e4b0e65b5545008b7d00ea76e5861b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 24/35] fix: checking transform parameters compares the
 transform type itself

---
 ml/param/feature_binning_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index fb516b5..bdd2d8f 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -27,7 +27,7 @@ class TransformParam(BaseParam):
         descr = "Transform Param's "
         if self.transform_cols is not None and self.transform_cols != -1:
             self.check_defined_type(self.transform_cols, descr, ['list'])
-        self.check_defined_type(self.transform_type, descr, ['bin_num', None])
+        self.check_valid_value(self.transform_type, descr, ['bin_num', None])
         
 
 class FeatureBinningParam(BaseParam):
-- 
2.43.0


From 68e7ea91bdd11645cd47b1a3a6e8a1785595c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 25/35] fix: checking parameters covers nested settings,
 switches and the upper bound of error

---
 ml/param/boosting_tree_param.py    | 4 ++++
 ml/param/cross_validation_param.py | 2 ++
 ml/param/feature_binning_param.py  | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index a66117e..52f8d76 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -257,4 +257,8 @@ class BoostingTreeParam(BaseParam):
                 "boosting tree param's bin_num {} not supported, should be positive integer greater than 1".format(
                     self.bin_num))
 
+        self.encrypted_mode_calculator_param.check()
+        self.predict_param.check()
+        self.cv_param.check()
+
         return True
diff --git a/ml/param/cross_validation_param.py b/ml/param/cross_validation_param.py
index aa41347..8c8c773 100644
--- a/ml/param/cross_validation_param.py
+++ b/ml/param/cross_validation_param.py
@@ -64,5 +64,7 @@ class CrossValidationParam(BaseParam):
         self.check_valid_value(self.role, model_param_descr, valid_values=[consts.HOST, consts.GUEST, consts.ARBITER])
         self.check_boolean(self.shuffle, model_param_descr)
         self.check_positive_integer(self.random_seed, model_param_descr)
+        self.check_boolean(self.need_cv, model_param_descr)
+        self.evaluate_param.check()
 
 
diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index bdd2d8f..4b81366 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -99,6 +99,11 @@ class FeatureBinningParam(BaseParam):
         self.check_positive_integer(self.compress_thres, descr)
         self.check_positive_integer(self.head_size, descr)
         self.check_decimal_float(self.error, descr)
+        if self.error == 1:
+            raise ValueError(descr + " error {} not supported, should be less than 1".format(self.error))
         self.check_positive_integer(self.bin_num, descr)
         self.check_defined_type(self.cols, descr, ['list', 'int', 'RepeatedScalarContainer'])
         self.check_open_unit_interval(self.adjustment_factor, descr)
+        self.check_boolean(self.local_only, descr)
+        self.check_boolean(self.need_run, descr)
+        self.transform_param.check()
-- 
2.43.0


From 0ba9b8fe4d6cc09d8680396f27b628831d0640cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:59 +0000
Subject: [PATCH 26/35] fix: a nested configuration that is not a mapping is
 refused

---
 ml/utils/param_extract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml/utils/param_extract.py b/ml/utils/param_extract.py
index 0fd30a5..601a4ba 100644
--- a/ml/utils/param_extract.py
+++ b/ml/utils/param_extract.py
@@ -45,6 +45,9 @@ class ParamExtract(object):
         if param_parse_depth > consts.PARAM_MAXDEPTH:
             raise ValueError("Param define nesting too deep!!!, can not parse it")
 
+        if type(config_json).__name__ != "dict":
+            raise ValueError("config of {} is not a valid dict type, please have a check!".format(type(param).__name__))
+
         inst_variables = param.__dict__
 
         for variable in inst_variables:
-- 
2.43.0


From f32c2be9357dd0786e9f52c3a7139a3ba2f4b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 27/35] fix: a component can be run without inputs

---
 ml/model_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml/model_base.py b/ml/model_base.py
index 409ae17..1ec0145 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -164,6 +164,9 @@ class ModelBase(object):
     def run(self, component_parameters=None, args=None):
         self._init_runtime_parameters(component_parameters)
 
+        if args is None:
+            args = {}
+
         if self.need_cv:
             stage = 'cross_validation'
         elif self.need_one_vs_rest:
-- 
2.43.0


From d20eb845e640e486aceaa21327cc5230183ed4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 28/35] fix: Tweedie gradient and hessian are the derivatives
 of the Tweedie loss

---
 ml/loss/regression_loss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 1ef933e..58f3074 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -224,14 +224,14 @@ class TweedieLoss(object):
     def compute_loss(self, y, y_pred):
         tweedie_loss = y.join(y_pred,
                               lambda y, yp:
-                              (-y * np.exp(1 - self.rho) * np.log(max(yp, consts.FLOAT_ZERO)) / (1 - self.rho) +
-                               np.exp(2 - self.rho) * np.log(max(consts.FLOAT_ZERO, yp)) / (2 - self.rho), 1))
+                              (-y * np.exp((1 - self.rho) * yp) / (1 - self.rho) +
+                               np.exp((2 - self.rho) * yp) / (2 - self.rho), 1))
         tweedie_loss_sum, sample_num = tweedie_loss.reduce(lambda tuple1, tuple2:
                                                            (tuple1[0] + tuple2[0], tuple1[1] + tuple2[1]))
         return tweedie_loss_sum / sample_num
 
     def compute_grad(self, y, y_pred):
-        return -y * np.exp(1 - self.rho) * y_pred + np.exp(2 - self.rho) * y_pred
+        return -y * np.exp((1 - self.rho) * y_pred) + np.exp((2 - self.rho) * y_pred)
 
     def compute_hess(self, y, y_pred):
-        return -y * (1 - self.rho) * np.exp(1 - self.rho) * y_pred + (2 - self.rho) * np.exp(2 - self.rho) * y_pred
+        return -y * (1 - self.rho) * np.exp((1 - self.rho) * y_pred) + (2 - self.rho) * np.exp((2 - self.rho) * y_pred)
-- 
2.43.0


From 490ee1f792d54a1c3b0e894aec034eef79691af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 29/35] fix: log-cosh loss stays finite for large differences

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 58f3074..4510084 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -188,7 +188,7 @@ class LogCoshLoss(object):
 
     @staticmethod
     def compute_loss(y, y_pred):
-        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.log(np.cosh(yp - y)), 1))
+        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.logaddexp(yp - y, y - yp) - np.log(2), 1))
         log_cosh_sum, sample_num = log_cosh_loss.reduce(
             lambda tuple1, tuple2: (tuple1[0] + tuple2[0], tuple1[1] + tuple2[1]))
         return log_cosh_sum / sample_num
-- 
2.43.0


From 535ccf2568f72370c989ed85969bfb5bb241e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 30/35] fix: column statistics leave out values that are not
 numeric

---
 ml/statistic/statics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 8f0cdce..becc61b 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -47,7 +47,7 @@ class SummaryStatistics(object):
 
         try:
             value = float(value)
-        except TypeError:
+        except (TypeError, ValueError):
             LOGGER.warning('The value {} cannot be converted to float'.format(value))
             return
 
-- 
2.43.0


From 6426e9be4521e7b4033b1f1448309e60809a5dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 31/35] fix: extremes of columns beyond the integer range

---
 ml/statistic/statics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index becc61b..c327d0f 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -16,7 +16,6 @@
 
 import functools
 import math
-import sys
 
 from ml.feature.binning.quantile_binning import QuantileBinning
 from ml.feature.quantile_summaries import QuantileSummaries
@@ -37,8 +36,8 @@ class SummaryStatistics(object):
 
         self.sum = 0
         self.sum_square = 0
-        self.max_value = - sys.maxsize - 1
-        self.min_value = sys.maxsize
+        self.max_value = - float('inf')
+        self.min_value = float('inf')
         self.count = 0
 
     def add_value(self, value):
-- 
2.43.0


From b906285dee1ebed4fefbcfbcfa410963ca26627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 32/35] fix: variance of large values does not cancel out

---
 ml/statistic/statics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index c327d0f..384bdfd 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -36,6 +36,7 @@ class SummaryStatistics(object):
 
         self.sum = 0
         self.sum_square = 0
+        self.square_deviation = 0   # sum of squared differences to the mean
         self.max_value = - float('inf')
         self.min_value = float('inf')
         self.count = 0
@@ -50,6 +51,9 @@ class SummaryStatistics(object):
             LOGGER.warning('The value {} cannot be converted to float'.format(value))
             return
 
+        if self.count > 0:
+            # the difference to the mean so far, whatever the size of the values
+            self.square_deviation += (value - self.mean) ** 2 * self.count / (self.count + 1)
         self.count += 1
         self.sum += value
         self.sum_square += value ** 2
@@ -59,6 +63,9 @@ class SummaryStatistics(object):
             self.min_value = value
 
     def merge(self, other):
+        self.square_deviation += other.square_deviation
+        if self.count > 0 and other.count > 0:
+            self.square_deviation += (other.mean - self.mean) ** 2 * self.count * other.count / (self.count + other.count)
         self.count += other.count
         self.sum += other.sum
         self.sum_square += other.sum_square
@@ -74,8 +81,7 @@ class SummaryStatistics(object):
 
     @property
     def variance(self):
-        mean = self.mean
-        variance = self.sum_square / self.count - 2 * self.sum * mean / self.count + mean ** 2
+        variance = self.square_deviation / self.count
         if math.fabs(variance) < consts.FLOAT_ZERO:
             return 0.0
         return variance
-- 
2.43.0


From 9b69b73408b334dd72e8982fd3c6daaa46648303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 33/35] fix: merging quantile sketches widens the rank
 intervals

---
 ml/feature/quantile_summaries.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index b48de1b..7dd5b70 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -131,21 +131,23 @@ class QuantileSummaries(object):
 
         if self.count == 0:
             self.count = other.count
-            self.sampled = other.sampled
+            self.sampled = [Stats(sample.value, sample.g, sample.delta) for sample in other.sampled]
             return
 
-        # merge two sorted array
+        # merge two sorted array, a sample may have any rank up to the next sample of the other one
         new_sample = []
         i, j = 0, 0
-        while i < len(self.sampled) and j < len(other.sampled):
-            if self.sampled[i].value < other.sampled[j].value:
-                new_sample.append(self.sampled[i])
+        while i < len(self.sampled) or j < len(other.sampled):
+            if j >= len(other.sampled) or (i < len(self.sampled) and self.sampled[i].value < other.sampled[j].value):
+                cur_sample, passed, rest = self.sampled[i], j, other.sampled[j:j + 1]
                 i += 1
             else:
-                new_sample.append(other.sampled[j])
+                cur_sample, passed, rest = other.sampled[j], i, self.sampled[i:i + 1]
                 j += 1
-        new_sample += self.sampled[i:]
-        new_sample += other.sampled[j:]
+            delta = cur_sample.delta
+            if passed > 0 and rest:
+                delta += rest[0].g + rest[0].delta - 1
+            new_sample.append(Stats(cur_sample.value, cur_sample.g, delta))
 
         self.sampled = new_sample
         self.count += other.count
-- 
2.43.0


From 74a403d5aa18d2442ad27a28b63f84d01baafb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 34/35] fix: instances with plain lists of features are dense

---
 ml/statistic/data_overview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/statistic/data_overview.py b/ml/statistic/data_overview.py
index a689860..14937c7 100644
--- a/ml/statistic/data_overview.py
+++ b/ml/statistic/data_overview.py
@@ -20,7 +20,7 @@ def is_sparse_data(data_instances: DTable) -> bool:
         return False
 
     data_feature = first_data.features
-    if type(data_feature).__name__ == "ndarray":
+    if type(data_feature).__name__ in ['ndarray', 'list']:
         return False
     else:
         return True
-- 
2.43.0


From 5a6f7ad949960ef579cfd39cd7d4e44e646c794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:10 +0000
Subject: [PATCH 35/35] fix: reducing a table counts values that are None

---
 computing/d_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/computing/d_table.py b/computing/d_table.py
index 530a8f1..281e961 100644
--- a/computing/d_table.py
+++ b/computing/d_table.py
@@ -89,9 +89,11 @@ class DTable(CTableABC):
 
     def reduce(self, func: typing.Callable):
         ret_val = None
+        is_first = True
         for v in self.__data.values():
-            if ret_val is None:
+            if is_first:
                 ret_val = v
+                is_first = False
             else:
                 ret_val = func(ret_val, v)
         return ret_val
-- 
2.43.0

