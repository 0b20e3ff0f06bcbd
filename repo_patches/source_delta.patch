From 6ab6fcf44fbac8c7935748dccba4ee1bb6c72326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 01/33] fix: keep the last accepted time stamps per DataLoader
 instance and forget them in Clear

---
 .../include/data_manager/data_loader.hpp             |  3 +++
 eskf_vio_backend/src/data_manager/data_loader.cpp    | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/data_manager/data_loader.hpp b/eskf_vio_backend/include/data_manager/data_loader.hpp
index d4b5622..e127f69 100644
--- a/eskf_vio_backend/include/data_manager/data_loader.hpp
+++ b/eskf_vio_backend/include/data_manager/data_loader.hpp
@@ -13,6 +13,9 @@ namespace ESKF_VIO_BACKEND {
         std::deque<std::shared_ptr<IMUMessage>> imuMeas;
         // 时间戳起点
         fp64 timeStampOffset = NAN;
+        // 各数据流最近一次输入的时间戳
+        fp64 lastFeatTimeStamp = - INFINITY;
+        fp64 lastImuTimeStamp = - INFINITY;
     public:
         // IMU 数据周期
         fp64 imuPeriod = 0.005;
diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index ccc8391..c65fe02 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -9,6 +9,8 @@ namespace ESKF_VIO_BACKEND {
         this->featMeas.clear();
         this->imuMeas.clear();
         this->timeStampOffset = static_cast<fp64>(-1);
+        this->lastFeatTimeStamp = - INFINITY;
+        this->lastImuTimeStamp = - INFINITY;
     }
 
 
@@ -24,11 +26,10 @@ namespace ESKF_VIO_BACKEND {
         }
         newFeatMeas->timeStamp -= this->timeStampOffset;
         // 仅接受时间戳递增的输入
-        static fp64 lastTimeStamp = newFeatMeas->timeStamp - 1;
-        if (newFeatMeas->timeStamp > lastTimeStamp) {
+        if (newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
         }
-        lastTimeStamp = newFeatMeas->timeStamp;
+        this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -40,11 +41,10 @@ namespace ESKF_VIO_BACKEND {
             this->timeStampOffset = newImuMeas->timeStamp;
         }
         newImuMeas->timeStamp -= this->timeStampOffset;
-        static fp64 lastTimeStamp = newImuMeas->timeStamp - 1;
-        if (newImuMeas->timeStamp > lastTimeStamp) {
+        if (newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
         }
-        lastTimeStamp = newImuMeas->timeStamp;
+        this->lastImuTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From 86de8b00d2c08a4d78886d86e053961349f6ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 02/33] fix: a rejected message no longer moves the time stamp
 later messages are compared with

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index c65fe02..14e5eec 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -28,8 +28,8 @@ namespace ESKF_VIO_BACKEND {
         // 仅接受时间戳递增的输入
         if (newFeatMeas->timeStamp > this->lastFeatTimeStamp) {
             this->featMeas.emplace_back(newFeatMeas);
+            this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         }
-        this->lastFeatTimeStamp = newFeatMeas->timeStamp;
         return true;
     }
 
@@ -43,8 +43,8 @@ namespace ESKF_VIO_BACKEND {
         newImuMeas->timeStamp -= this->timeStampOffset;
         if (newImuMeas->timeStamp > this->lastImuTimeStamp) {
             this->imuMeas.emplace_back(newImuMeas);
+            this->lastImuTimeStamp = newImuMeas->timeStamp;
         }
-        this->lastImuTimeStamp = newImuMeas->timeStamp;
         return true;
     }
 
-- 
2.43.0


From 24c510a4d4e5e3d22f785a0ddcf89bd76c4e997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 03/33] fix: PopPackedMessage accepts an empty output pointer
 like PopOneMessage does

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 14e5eec..3d7cb67 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -90,6 +90,10 @@ namespace ESKF_VIO_BACKEND {
 
     /* 仅当 features message 存在时，按时间戳输出下一捆数据 */
     bool DataLoader::PopPackedMessage(std::shared_ptr<CombinedMessage> &output) {
+        if (output == nullptr) {
+            std::shared_ptr<CombinedMessage> msg(new CombinedMessage());
+            output = msg;
+        }
         output->Clear();
         // 如果队列为空，则返回 false
         if (this->imuMeas.empty() || this->featMeas.empty()) {
-- 
2.43.0


From a90a486868f5f88eee05626073538e2fdccdaa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 04/33] fix: AttitudeEstimate::CleanOldItems no longer reads
 past the end when every item is old

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index bfdad83..501c9d2 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -121,7 +121,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             return true;
         }
-        while (Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
+        while (!this->items.empty() && Scalar(timeStamp - this->items.front()->timeStamp) > threshold) {
             this->items.pop_front();
         }
         LogInfo(">> Attitude estimator reset at " << timeStamp << "s, " << this->items.size() <<
-- 
2.43.0


From f3611c607796a500551df44a3f59eb0174d458ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 05/33] fix: initial attitude is exact for every tilt and
 defined for level and inverted bodies

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 501c9d2..3a57581 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -19,12 +19,7 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
             // 将重力加速度向量转化为旋转矩阵
-            Vector3 g_cross = g_imu.cross(g_word);
-            Scalar norm = g_cross.norm();
-            Vector3 u = g_cross / norm;
-            Scalar theta = std::atan2(norm, g_imu.transpose() * g_word);
-            Vector3 dq_v = u * theta;
-            Quaternion q_wb = Utility::DeltaQ(dq_v).normalized();
+            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From 8eeb8d17b39457a1921ed6d92b6564a55e622773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 06/33] fix: attitude estimator integrates the angular rate in
 the direction of rotation

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 3a57581..2002483 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -49,7 +49,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
             // 更新姿态
-            Quaternion dq = Utility::DeltaQ(- gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
+            Quaternion dq = Utility::DeltaQ(gyrCorrect * static_cast<Scalar>(item_1->timeStamp - item_0->timeStamp));
             item_1->q_wb = item_0->q_wb * dq;
             item_1->q_wb.normalize();
         }
-- 
2.43.0


From ed701140b0e4bbdd73d82503f52eee3b2afe3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 07/33] fix: zero specific force no longer turns the attitude
 estimate into NaN

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 2002483..d655f5d 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -41,7 +41,7 @@ namespace ESKF_VIO_BACKEND {
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel / accel.norm();
+            Vector3 acc_b_measure = accel.normalized();
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
-- 
2.43.0


From 89c53ba547d7e71fcd7a0958f8e8f2b42a5cba96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 08/33] fix: GetAttitude also answers from a single stored item
 later than the query

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index d655f5d..5cefaef 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -73,7 +73,7 @@ namespace ESKF_VIO_BACKEND {
         }
 
         // 最小的时间戳也大于目标时间戳
-        if (this->items.size() > 1 && this->items.front()->timeStamp >= timeStamp) {
+        if (this->items.front()->timeStamp >= timeStamp) {
             if (this->items.front()->timeStamp - timeStamp < threshold) {
                 atti = this->items.front()->q_wb;
                 return true;
-- 
2.43.0


From 984c1fac721dd6e9bfcdc82569baeb8f9c64843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 09/33] fix: attitude history keeps the raw IMU samples, so
 that re-initialization compensates the bias once

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 5cefaef..15a7ed6 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -23,8 +23,8 @@ namespace ESKF_VIO_BACKEND {
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-            newItem->accel = accel - this->bias_a;
-            newItem->gyro = gyro - this->bias_g;
+            newItem->accel = accel;
+            newItem->gyro = gyro;
             newItem->q_wb = q_wb.normalized();
             newItem->timeStamp = timeStamp;
             LogInfo(">> Attitude estimator init successfully.");
@@ -36,15 +36,15 @@ namespace ESKF_VIO_BACKEND {
             }
             std::shared_ptr<AttitudeEstimateItem> item_1(new AttitudeEstimateItem());
             this->items.emplace_back(item_1);
-            item_1->accel = accel - this->bias_a;
-            item_1->gyro = gyro - this->bias_g;
+            item_1->accel = accel;
+            item_1->gyro = gyro;
             item_1->timeStamp = timeStamp;
             
             // 利用加速度观测，修正角速度中值
-            Vector3 acc_b_measure = accel.normalized();
+            Vector3 acc_b_measure = (accel - this->bias_a).normalized();
             Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
-            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro);
+            Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
             Vector3 gyrCorrect = gyrMid + err * this->Kp + this->errInt;
 
-- 
2.43.0


From b237e8e7cc3c152ba10118f65093363692b9406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 10/33] fix: the configured IMU bias also reaches the attitude
 estimator

---
 eskf_vio_backend/src/backend/backend_config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index eff0d7e..ad6d4d8 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -19,6 +19,7 @@ namespace ESKF_VIO_BACKEND {
                                                       this->config->imu.sigmaBiasGyroRandomWalk);
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
+        this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
         IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
 
         this->frameManager.extrinsics.clear();
-- 
2.43.0


From d8df5f3352d2afeda6a8b247e8ad42d8d6040fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 11/33] fix: re-initialization starts a new propagation
 sequence instead of extending the old one

---
 eskf_vio_backend/src/backend/backend_initialize.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 6254046..07784fd 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -133,6 +133,8 @@ namespace ESKF_VIO_BACKEND {
         this->propagator.initState.p_wb = initState.p_wb;
         this->propagator.initState.v_wb = initState.v_wb;
         this->propagator.initState.q_wb = initState.q_wb;
+        // 重新初始化时，丢弃上一次运行遗留的 propagate 序列
+        this->propagator.items.clear();
         // 从 attitude estimator 提取出从首帧时刻点开始，到最新时刻的 imu 量测，依次输入到 propagator 让他递推到最新时刻
         this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod);
         for (auto it = this->attitudeEstimator.items.begin(); it != this->attitudeEstimator.items.end(); ++it) {
-- 
2.43.0


From 6044f2e2c51ccbd52448a142691bb2f1307761bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 12/33] fix: LoadMatrix neither writes past the matrix nor
 accepts incomplete or unreadable files

---
 eskf_vio_backend/src/config/config.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index 3a6b28e..a633be8 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -116,13 +116,16 @@ namespace ESKF_VIO_BACKEND {
         std::string oneLine;
         mat.resize(rows, cols);
         uint32_t row = 0;
-        while (std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
+        while (row < rows && std::getline(fsMatrix, oneLine) && !oneLine.empty()) {
             std::istringstream matData(oneLine);
             for (uint32_t col = 0; col < cols; ++col) {
-                matData >> mat(row, col);
+                if (!(matData >> mat(row, col))) {
+                    return false;
+                }
             }
             ++row;
         }
-        return true;
+        // 行数不足时，视为读取失败
+        return row == rows;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 8500d58d4ba9993cf8fdb83c13bc1c4bd62206c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 13/33] fix: RANSAC pose estimation reports failure instead of
 looping forever with fewer than three points

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index b71aec0..18c6089 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -88,7 +88,7 @@ namespace ESKF_VIO_BACKEND {
                                        const std::vector<Vector2> &pts_2d,
                                        Quaternion &q_wc,
                                        Vector3 &p_wc) {
-        if (pts_3d.size() != pts_2d.size() || pts_3d.empty()) {
+        if (pts_3d.size() != pts_2d.size() || pts_3d.size() < 3) {
             return false;
         }
         uint32_t iter = this->ransacParam.maxIterateTimes;
-- 
2.43.0


From 5de5f7452df71550bc2c2527696464e80f99bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 14/33] fix: RANSAC pose estimation returns its best hypothesis
 instead of the last one

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 18c6089..cb99b1c 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -140,6 +140,9 @@ namespace ESKF_VIO_BACKEND {
             }
             --iter;
         }
+        // 输出得分最高的模型参数
+        q_wc = best_q_wc;
+        p_wc = best_p_wc;
         return true;
     }
 
-- 
2.43.0


From 5c8d7f2857b8548b7be210d88c1bec32af766573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 15/33] fix: RANSAC inlier flags no longer keep stale entries
 of the caller's list

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index cb99b1c..0a4b93b 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -155,7 +155,7 @@ namespace ESKF_VIO_BACKEND {
                                        Vector3 &p_wc,
                                        std::vector<bool> &isInlier) {
         RETURN_FALSE_IF_FALSE(this->EstimatePoseRANSAC(pts_3d, pts_2d, q_wc, p_wc));
-        isInlier.resize(pts_3d.size(), true);
+        isInlier.assign(pts_3d.size(), true);
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-- 
2.43.0


From d77651fb48c060a42ed7ad35ca38b146ce328857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 16/33] fix: a correspondence with an undefined reprojection
 error is not flagged as RANSAC inlier

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 0a4b93b..26cea77 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -159,7 +159,7 @@ namespace ESKF_VIO_BACKEND {
         for (uint32_t i = 0; i < pts_3d.size(); ++i) {
             Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
             Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
-            if (r.squaredNorm() >= this->ransacParam.inlierThres) {
+            if (!(r.squaredNorm() < this->ransacParam.inlierThres)) {
                 isInlier[i] = false;
             }
         }
-- 
2.43.0


From dbc1c15885f0a705d8b7948c7c7e748f15b0e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 17/33] fix: observations of interrupted or repeated tracks
 stay attached to the frame they were made in

---
 .../vision_data/feature_manager.cpp           | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
index ea81d8b..f1ddd0a 100644
--- a/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
+++ b/eskf_vio_backend/src/data_manager/vision_data/feature_manager.cpp
@@ -56,8 +56,20 @@ namespace ESKF_VIO_BACKEND {
         }
         changedFeatures.reserve(ids.size());
         for (uint32_t i = 0; i < ids.size(); ++i) {
+            // 没有任何相机观测到时，不与此帧关联
+            if (newObserves[i]->norms.empty()) {
+                continue;
+            }
             auto it = this->features.find(ids[i]);
             if (it != this->features.end()) {
+                // 同一帧内重复出现的特征点，仅保留首次输入的观测
+                if (it->second->FinalFrameID() >= frameID) {
+                    continue;
+                }
+                // 追踪中断的帧用空观测补齐，保证 observes 与连续的帧 ID 一一对应
+                while (it->second->FinalFrameID() + 1 < frameID) {
+                    it->second->observes.emplace_back(new FeatureObserve());
+                }
                 // 对应特征点已经存在时，直接添加观测
                 it->second->AddNewObserve(newObserves[i]);
                 changedFeatures.emplace_back(it->second);
@@ -101,6 +113,10 @@ namespace ESKF_VIO_BACKEND {
                         feature->observes[i] = feature->observes[i + 1];
                     }
                     feature->observes.resize(feature->observes.size() - 1);
+                    // 如果剩余的都是空观测，则准备删除
+                    if (feature->observeNum == 0) {
+                        needDelete.emplace_back(feature->id);
+                    }
                 } else if (frameID < feature->firstFrameID) {
                     // 如果需要删除的观测，在这个特征点的所有观测之前，需要调整其首次观测
                     --feature->firstFrameID;
@@ -126,6 +142,10 @@ namespace ESKF_VIO_BACKEND {
                     feature->observes.resize(feature->observes.size() - 1);
                     // 调整首帧观测的 ID
                     ++feature->firstFrameID;
+                    // 如果剩余的都是空观测，则准备删除
+                    if (feature->observeNum == 0) {
+                        needDelete.emplace_back(feature->id);
+                    }
                 }
             }
         }
-- 
2.43.0


From 132567269db4be0a5f6ba5372869f4379ae5ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 18/33] fix: landmarks with equal random scores are no longer
 dropped from the vision update

---
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 36a1ffd..2018aae 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -155,7 +155,7 @@ namespace ESKF_VIO_BACKEND {
     /* 更新每一个点的三角测量质量，基于三角测量的质量，选择一定数量的特征点 */
     bool MultiViewVisionUpdate::SelectGoodFeatures(void) {
         auto frame = this->frameManager->frames.back();
-        std::map<fp32, std::shared_ptr<Feature>> goodFeatures;  // <score, feature_ptr>
+        std::multimap<fp32, std::shared_ptr<Feature>> goodFeatures;  // <score, feature_ptr>
         for (auto it = frame->features.begin(); it != frame->features.end(); ++it) {
             auto feature = (*it).second;
             if (this->TrianglizeMultiFrame(feature) == true) {
-- 
2.43.0


From 823aa891bed937b6c78f76aab7dc46cb21387f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 19/33] fix: ComputeRotationMagnitude no longer returns NaN for
 rotations close to zero or half a turn

---
 eskf_vio_backend/include/utility/math_lib.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 26bd13f..938ba60 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -92,8 +92,10 @@ namespace ESKF_VIO_BACKEND {
 
         /* 计算旋转误差的量级，输出单位为 rad 的误差角 */
         static Scalar ComputeRotationMagnitude(Matrix33 &delta_R) {
+            // 舍入误差可能使余弦值略微超出 [-1, 1]
+            Scalar cosine = (delta_R.trace() - Scalar(1.0)) / Scalar(2.0);
             Scalar magnitude = std::fabs(std::acos(
-                (delta_R.trace() - Scalar(1.0)) / Scalar(2.0)
+                std::min(std::max(cosine, Scalar(-1.0)), Scalar(1.0))
             ));
             return magnitude;
         }
-- 
2.43.0


From 574be952cbbe5c7de194c1ba19fae25f8914c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 20/33] fix: the magnitude of a rotation vector is its length
 (an unnormalized quaternion was used as a rotation)

---
 eskf_vio_backend/include/utility/math_lib.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 938ba60..73e1bb5 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -104,12 +104,7 @@ namespace ESKF_VIO_BACKEND {
             return ComputeRotationMagnitude(delta_R);
         }
         static Scalar ComputeRotationMagnitude(Vector3 &delta_r) {
-            Quaternion delta_q(
-                Scalar(1.0),
-                Scalar(0.5) * delta_r(0),
-                Scalar(0.5) * delta_r(1),
-                Scalar(0.5) * delta_r(2));
-            return ComputeRotationMagnitude(delta_q);
+            return delta_r.norm();
         }
 
 
-- 
2.43.0


From 0acec5fdb8959ec5f997db332ded563c4ede8c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 21/33] fix: QuaternionToEuler stays finite at gimbal lock

---
 eskf_vio_backend/include/utility/math_lib.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 73e1bb5..805c8da 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -119,7 +119,7 @@ namespace ESKF_VIO_BACKEND {
             Vector3 pry;    // pitch, roll, yaw
             Matrix33 R(q_wb.inverse());
             pry.x() = std::atan2(R(1, 2), R(2, 2)) * static_cast<Scalar>(57.295779579);
-            pry.y() = std::asin(- R(0, 2)) * static_cast<Scalar>(57.295779579);
+            pry.y() = std::asin(std::min(std::max(- R(0, 2), Scalar(-1.0)), Scalar(1.0))) * static_cast<Scalar>(57.295779579);
             pry.z() = std::atan2(R(0, 1), R(0, 0)) * static_cast<Scalar>(57.295779579);
             return pry;
         }
-- 
2.43.0


From 42afff5caad4a58f42f556c271d35ab228766351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 22/33] fix: dropping the second-newest of two frames no longer
 shifts the observations of the newest

---
 eskf_vio_backend/src/backend/backend.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 389b05c..3c89587 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -183,8 +183,8 @@ namespace ESKF_VIO_BACKEND {
                 this->frameManager.RemoveFrame(0);
                 break;
             case MARG_SUBNEW:
-                // 剔除次新帧以及相关特征点
-                this->featureManager.RemoveByFrameID(this->frameManager.frames.back()->id - 1, true);
+                // 剔除次新帧以及相关特征点（仅有两帧时次新帧就是最旧帧，后续帧的 ID 不会发生调整）
+                this->featureManager.RemoveByFrameID(this->frameManager.frames.back()->id - 1, this->frameManager.frames.size() > 2);
                 this->frameManager.RemoveFrame(this->frameManager.frames.size() - 2);
                 break;
             case NO_MARG:
-- 
2.43.0


From a905bef428d13a15020a1fea6cc938936111e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 23/33] fix: initial attitude of a nearly inverted body is
 computed in double precision

---
 eskf_vio_backend/src/propagate/attitude_estimate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 15a7ed6..3c67be4 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -19,7 +19,8 @@ namespace ESKF_VIO_BACKEND {
                 return false;
             }
             // 将重力加速度向量转化为旋转矩阵
-            Quaternion q_wb = Quaternion::FromTwoVectors(g_imu, g_word);
+            // 接近倒置时单精度计算的旋转轴误差较大，因此使用双精度
+            Quaternion q_wb = Eigen::Quaternion<fp64>::FromTwoVectors(g_imu.cast<fp64>(), g_word.cast<fp64>()).cast<Scalar>();
             // 构造新的 item
             std::shared_ptr<AttitudeEstimateItem> newItem(new AttitudeEstimateItem());
             this->items.emplace_back(newItem);
-- 
2.43.0


From b38700acdf1b4f30f7e16fbbfcd408d866b8bafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 24/33] fix: RANSAC no longer replaces the start pose by a
 hypothesis with fewer inliers

---
 eskf_vio_backend/src/geometry/perspective_n_point.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eskf_vio_backend/src/geometry/perspective_n_point.cpp b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
index 26cea77..485bbd3 100644
--- a/eskf_vio_backend/src/geometry/perspective_n_point.cpp
+++ b/eskf_vio_backend/src/geometry/perspective_n_point.cpp
@@ -96,6 +96,14 @@ namespace ESKF_VIO_BACKEND {
         Vector3 best_p_wc = p_wc;
         uint32_t best_score = 0;
         uint32_t score = 0;
+        // 首个模型为输入的初值，其得分同样参与比较
+        for (uint32_t i = 0; i < pts_3d.size(); ++i) {
+            Vector3 p_c = q_wc.inverse() * (pts_3d[i] - p_wc);
+            Vector2 r = Vector2(p_c(0) / p_c(2), p_c(1) / p_c(2)) - pts_2d[i];
+            if (r.squaredNorm() < this->ransacParam.inlierThres) {
+                ++best_score;
+            }
+        }
 
         // RANSAC 循环
         std::set<uint32_t> indice;
-- 
2.43.0


From 5bec79e9bafbe410c35552287c56f371b42e4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 25/33] fix: iterative triangulation works for points at any
 height of the world frame

The inverse depth was taken along the world z axis, so it was singular for points
around z = 0 and the iteration diverged. Estimate the point in the first camera.
---
 .../src/geometry/trianglation.cpp             | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/eskf_vio_backend/src/geometry/trianglation.cpp b/eskf_vio_backend/src/geometry/trianglation.cpp
index 39f64af..f281e60 100644
--- a/eskf_vio_backend/src/geometry/trianglation.cpp
+++ b/eskf_vio_backend/src/geometry/trianglation.cpp
@@ -54,8 +54,17 @@ namespace ESKF_VIO_BACKEND {
                                           const std::vector<Vector3> &p_wc,
                                           const std::vector<Vector2> &norm,
                                           Vector3 &p_w) {
-        Vector3 solution(p_w(0) / p_w(2), p_w(1) / p_w(2), 1.0 / p_w(2));
         uint32_t total_poses = q_wc.size();
+        if (total_poses == 0) {
+            return false;
+        }
+
+        // The point is estimated in the first camera frame, where its depth is positive.
+        // In world frame the inverse depth is singular for points with z around zero.
+        const Quaternion q_wc0 = q_wc[0];
+        const Vector3 p_wc0 = p_wc[0];
+        Vector3 p_c0 = q_wc0.inverse() * (p_w - p_wc0);
+        Vector3 solution(p_c0(0) / p_c0(2), p_c0(1) / p_c0(2), 1.0 / p_c0(2));
 
         //from world2camera  -> camera2world
         std::vector<Quaternion> q_cw;
@@ -72,9 +81,9 @@ namespace ESKF_VIO_BACKEND {
         // Compute the initial cost.
         Scalar total_cost = 0.0;
         for (uint32_t i = 0; i < total_poses; ++i) {
-            q_cw.emplace_back(q_wc[i].inverse());
-            p_cw.emplace_back(q_wc[i].inverse() * - p_wc[i]);
-            total_cost += ComputeResidual(q_cw[i], p_cw[i], p_w, norm[i]);
+            q_cw.emplace_back(q_wc[i].inverse() * q_wc0);
+            p_cw.emplace_back(q_wc[i].inverse() * (p_wc0 - p_wc[i]));
+            total_cost += ComputeResidual(q_cw[i], p_cw[i], p_c0, norm[i]);
         }
 
         // Outer loop.
@@ -105,13 +114,13 @@ namespace ESKF_VIO_BACKEND {
                 Matrix33 damper = lambda * Matrix33::Identity();
                 Vector3 delta = (A + damper).ldlt().solve(b);
                 Vector3 new_solution = solution - delta;
-                p_w = Vector3(new_solution(0) / new_solution(2),
-                              new_solution(1) / new_solution(2),
-                              1.0 / new_solution(2));
+                p_c0 = Vector3(new_solution(0) / new_solution(2),
+                               new_solution(1) / new_solution(2),
+                               1.0 / new_solution(2));
                 delta_norm = delta.norm();
                 Scalar new_cost = 0.0;
                 for (uint32_t i = 0; i < total_poses; ++i) {
-                    new_cost += this->ComputeResidual(q_cw[i], p_cw[i], p_w, norm[i]);
+                    new_cost += this->ComputeResidual(q_cw[i], p_cw[i], p_c0, norm[i]);
                 }
                 if (new_cost < total_cost) {
                     is_cost_reduced = true;
@@ -120,7 +129,6 @@ namespace ESKF_VIO_BACKEND {
                     lambda = lambda / 10 > 1e-10 ? lambda / 10 : 1e-10;
                 } else {
                     is_cost_reduced = false;
-                    p_w = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));
                     lambda = lambda * 10 < 1e12 ? lambda * 10 : 1e12;
                 }
             } while (inner_loop_cntr++ < INNER_LOOP_MAX_ITER && !is_cost_reduced);
@@ -129,7 +137,8 @@ namespace ESKF_VIO_BACKEND {
 
         // Covert the feature position from inverse depth
         // representation to its 3d coordinate.
-        p_w = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));
+        p_c0 = Vector3(solution(0) / solution(2), solution(1) / solution(2), 1.0 / solution(2));
+        p_w = q_wc0 * p_c0 + p_wc0;
         // TODO: when to return false?
         return true;
     }
-- 
2.43.0


From 24deae395944f7b103fd7a457dea723eccc24d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 26/33] fix: the symmetric inverse ignores eigenvalues that are
 zero up to rounding

The absolute limit of 1e-10 lies below single-precision rounding, so a singular matrix
got entries of rounding noise inverted (about 1e7) instead of its pseudo-inverse.
---
 eskf_vio_backend/include/utility/math_lib.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/include/utility/math_lib.hpp b/eskf_vio_backend/include/utility/math_lib.hpp
index 805c8da..1bbe4a9 100644
--- a/eskf_vio_backend/include/utility/math_lib.hpp
+++ b/eskf_vio_backend/include/utility/math_lib.hpp
@@ -127,8 +127,11 @@ namespace ESKF_VIO_BACKEND {
         /* 计算对称矩阵的逆 */
         static Matrix Inverse(const Matrix &A) {
             Eigen::SelfAdjointEigenSolver<Matrix> saes(A);
+            // 小于舍入误差的特征值视为零
+            const Scalar threshold = std::max(ZERO, saes.eigenvalues().array().abs().maxCoeff() *
+                Scalar(10) * std::numeric_limits<Scalar>::epsilon());
             Matrix Ainv = saes.eigenvectors() * Vector(
-                (saes.eigenvalues().array() > ZERO).select(
+                (saes.eigenvalues().array() > threshold).select(
                     saes.eigenvalues().array().inverse(), 0
                 )).asDiagonal() * saes.eigenvectors().transpose();
             return Ainv;
-- 
2.43.0


From 8f2259a20c3755e536e85591650dcca0d17b65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:22 +0000
Subject: [PATCH 27/33] fix: a frame is matched with the newest IMU sample not
 later than it

---
 eskf_vio_backend/src/backend/backend_initialize.cpp      | 5 +++++
 eskf_vio_backend/src/update/multi_view_vision_update.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index 07784fd..a97bb48 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -138,6 +138,11 @@ namespace ESKF_VIO_BACKEND {
         // 从 attitude estimator 提取出从首帧时刻点开始，到最新时刻的 imu 量测，依次输入到 propagator 让他递推到最新时刻
         this->attitudeEstimator.CleanOldItems(startTime, this->dataloader.imuPeriod);
         for (auto it = this->attitudeEstimator.items.begin(); it != this->attitudeEstimator.items.end(); ++it) {
+            // 起点应当是不晚于首帧时刻的最新一个 item，跳过容差范围内更旧的 item
+            const auto next = std::next(it);
+            if (next != this->attitudeEstimator.items.end() && (*next)->timeStamp <= startTime) {
+                continue;
+            }
             this->propagator.Propagate((*it)->accel, (*it)->gyro, (*it)->timeStamp);
         }
         return true;
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 2018aae..766b6a8 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -48,6 +48,11 @@ namespace ESKF_VIO_BACKEND {
     /* 定位到 propagator 序列中对应时间戳的地方，清空在这之前的序列 item */
     bool MultiViewVisionUpdate::ResetPropagatorOrigin(const fp64 timeStamp, const fp64 threshold) {
         RETURN_FALSE_IF_FALSE(this->propagator->ResetOrigin(timeStamp, threshold));
+        // 容差范围内可能保留了更旧的 item，起点应当是不晚于该时刻的最新一个 item
+        auto &items = this->propagator->items;
+        while (items.size() > 1 && (*std::next(items.begin()))->timeStamp <= timeStamp) {
+            items.pop_front();
+        }
         // 清空后，this->propagator->items.front() 就是 update 对应时刻
         return true;
     }
-- 
2.43.0


From fbf2e98aec230c23911ea5974fa4b1ec2efc9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 28/33] fix: each vision updator draws landmark scores from its
 own generator

The scores came from the process-wide std::rand, so that with more usable
landmarks than the maximum the estimate of one backend depended on how many
draws other backends, or earlier runs in the process, had made.
---
 eskf_vio_backend/include/update/multi_view_vision_update.hpp | 2 ++
 eskf_vio_backend/src/update/multi_view_vision_update.cpp     | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/include/update/multi_view_vision_update.hpp b/eskf_vio_backend/include/update/multi_view_vision_update.hpp
index 0a9f79d..d8deb12 100644
--- a/eskf_vio_backend/include/update/multi_view_vision_update.hpp
+++ b/eskf_vio_backend/include/update/multi_view_vision_update.hpp
@@ -26,6 +26,8 @@ namespace ESKF_VIO_BACKEND {
         MargPolicy margPolicy = NO_MARG;
 
     private:
+        // 用于随机挑选特征点的种子，每个实例各自独立，避免不同实例之间互相影响
+        unsigned int randomSeed = 1;
         // 用于构造量测方程的特征点
         std::vector<std::shared_ptr<Feature>> features;
         // propagator 预测的，以及 update 过程输出的 errorState 结果
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index 766b6a8..bbcfc11 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -165,7 +165,7 @@ namespace ESKF_VIO_BACKEND {
             auto feature = (*it).second;
             if (this->TrianglizeMultiFrame(feature) == true) {
                 // TODO: 得分
-                goodFeatures.insert(std::make_pair(std::rand(), feature));
+                goodFeatures.insert(std::make_pair(rand_r(&this->randomSeed), feature));
             }
         }
         // 从高分到低分选择特征点，存入到 this->features 中
-- 
2.43.0


From d735d3453666aa492613f3551c7ca6e909d1b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 29/33] fix: observations of a camera without calibration are
 ignored

They indexed the list of calibrations out of bounds.
---
 eskf_vio_backend/src/backend/backend.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index 3c89587..b3df343 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -158,9 +158,23 @@ namespace ESKF_VIO_BACKEND {
         std::shared_ptr<Frame> newFrame(new Frame(featMeas->timeStamp));
         this->frameManager.AddNewFrame(newFrame);
 
+        // 没有外参的相机的观测无法使用，不予保留
+        std::vector<std::shared_ptr<FeatureObserve>> observes = featMeas->observes;
+        for (auto &observe : observes) {
+            std::shared_ptr<FeatureObserve> known(new FeatureObserve());
+            for (const auto &item : observe->norms) {
+                if (item.first < this->frameManager.extrinsics.size()) {
+                    known->norms.insert(item);
+                }
+            }
+            if (known->norms.size() < observe->norms.size()) {
+                observe = known;
+            }
+        }
+
         // 特征点追踪结果添加到 feature manager
         std::vector<std::shared_ptr<Feature>> newObserveFeatures;
-        this->featureManager.AddNewFeatures(featMeas->ids, featMeas->observes,
+        this->featureManager.AddNewFeatures(featMeas->ids, observes,
             newFrame->id, newObserveFeatures);
 
         // 新帧关联特征点追踪结果
-- 
2.43.0


From 8bc7257a712c409c4db517e6357b24e0c21a1314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 30/33] fix: scratch buffers are local to the call instead of
 shared by all systems of the process

---
 eskf_vio_backend/src/backend/backend_initialize.cpp    | 10 +++++-----
 eskf_vio_backend/src/config/config.cpp                 |  2 +-
 .../src/update/multi_view_vision_update.cpp            | 10 +++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend_initialize.cpp b/eskf_vio_backend/src/backend/backend_initialize.cpp
index a97bb48..f59693d 100644
--- a/eskf_vio_backend/src/backend/backend_initialize.cpp
+++ b/eskf_vio_backend/src/backend/backend_initialize.cpp
@@ -53,9 +53,9 @@ namespace ESKF_VIO_BACKEND {
         }
         const Quaternion &q_wb = frame->q_wb;
         const Vector3 &p_wb = frame->p_wb;
-        static std::vector<Quaternion> all_q_wc(50);
-        static std::vector<Vector3> all_p_wc(50);
-        static std::vector<Vector2> all_norm(50);
+        std::vector<Quaternion> all_q_wc(50);
+        std::vector<Vector3> all_p_wc(50);
+        std::vector<Vector2> all_norm(50);
 
         // 从 frame->features 中挑选点进行三角化，结果将保存在 feature manager 中
         for (auto iter = frame->features.begin(); iter != frame->features.end(); ++iter) {
@@ -93,8 +93,8 @@ namespace ESKF_VIO_BACKEND {
         if (frame == nullptr) {
             return false;
         }
-        static std::vector<Vector3> pts_3d(50);
-        static std::vector<Vector2> pts_2d(50);
+        std::vector<Vector3> pts_3d(50);
+        std::vector<Vector2> pts_2d(50);
         pts_3d.clear();
         pts_2d.clear();
         // 从 frame->features 中挑选三角化成功的点
diff --git a/eskf_vio_backend/src/config/config.cpp b/eskf_vio_backend/src/config/config.cpp
index a633be8..f3b7705 100644
--- a/eskf_vio_backend/src/config/config.cpp
+++ b/eskf_vio_backend/src/config/config.cpp
@@ -14,7 +14,7 @@ namespace ESKF_VIO_BACKEND {
 
     /* 输入配置文件路径，自动搜寻所有配置项并记录在成员变量中 */
     bool Configurator::ReadConfigParams(const std::string &configPath) {
-        static Matrix tempMat;
+        Matrix tempMat;
 
         // 加载 IMU 输入频率
         if (this->LoadMatrix(configPath + "/imu_frequence.txt", 1, 1, tempMat) == true) {
diff --git a/eskf_vio_backend/src/update/multi_view_vision_update.cpp b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
index bbcfc11..a2c12d8 100644
--- a/eskf_vio_backend/src/update/multi_view_vision_update.cpp
+++ b/eskf_vio_backend/src/update/multi_view_vision_update.cpp
@@ -118,9 +118,9 @@ namespace ESKF_VIO_BACKEND {
         if (feature == nullptr) {
             return false;
         }
-        static std::vector<Quaternion> all_q_wc(50);
-        static std::vector<Vector3> all_p_wc(50);
-        static std::vector<Vector2> all_norm(50);
+        std::vector<Quaternion> all_q_wc(50);
+        std::vector<Vector3> all_p_wc(50);
+        std::vector<Vector2> all_norm(50);
         all_q_wc.clear();
         all_p_wc.clear();
         all_norm.clear();
@@ -314,7 +314,7 @@ namespace ESKF_VIO_BACKEND {
         this->delta_x = this->K * r;       // dx = K * r
         Matrix I_KH = - this->K * H;
         I_KH.diagonal().array() += Scalar(1);
-        static Matrix newCov;
+        Matrix newCov;
         newCov = I_KH * this->covariance;   // P = (I - K * H) * P
         // newCov = I_KH * this->covariance * I_KH.transpose() +
         //     this->K * this->K.transpose() * R;     // P = (I - K * H) * P * (I - K * H).t + K * R * K.t
@@ -424,7 +424,7 @@ namespace ESKF_VIO_BACKEND {
         const uint32_t imuSize = IMU_STATE_SIZE;
         const uint32_t imuExSize = imuSize + exSize;
         const uint32_t fullSize = imuSize + camExSize;
-        static Matrix temp;
+        Matrix temp;
         switch (this->margPolicy) {
             case NO_MARG:
                 return true;
-- 
2.43.0


From b593e068d4890b3b3ca4e487a358c0dfa238f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 31/33] fix: the attitude history is also cleaned while the
 system cannot initialize

---
 eskf_vio_backend/src/backend/backend.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/backend/backend.cpp b/eskf_vio_backend/src/backend/backend.cpp
index b3df343..ab592d5 100644
--- a/eskf_vio_backend/src/backend/backend.cpp
+++ b/eskf_vio_backend/src/backend/backend.cpp
@@ -88,9 +88,11 @@ namespace ESKF_VIO_BACKEND {
                 }
             }
 
-            // 清空 attitude estimator 中记录的 imu 历史量测数据和姿态估计结果，仅保留最新两帧之间的
-            if (this->frameManager.frames.size() > 1) {
+            // 清空 attitude estimator 中记录的 imu 历史量测数据和姿态估计结果，仅保留最新一帧之后的
+            // 最新的姿态估计结果始终保留，否则姿态解算需要重新等待静止时刻才能开始
+            if (this->frameManager.frames.empty() == false && this->attitudeEstimator.items.empty() == false) {
                 fp64 timeStamp = (*this->frameManager.frames.rbegin())->timeStamp;
+                timeStamp = std::min(timeStamp, this->attitudeEstimator.items.back()->timeStamp);
                 this->attitudeEstimator.CleanOldItems(timeStamp, this->dataloader.imuPeriod);
             }
         }
-- 
2.43.0


From 98dfd138301411089fc0a44fc7ba52b83dc19ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:41 +0000
Subject: [PATCH 32/33] fix: gravity belongs to a system, not to the process

Configuring a second system with another gravity_norm.txt changed the gravity
used by every system already running in the process.
---
 eskf_vio_backend/include/propagate/attitude_estimate.hpp   | 3 +++
 eskf_vio_backend/include/propagate/sequence_propagator.hpp | 2 ++
 eskf_vio_backend/src/backend/backend_config.cpp            | 3 ++-
 eskf_vio_backend/src/propagate/attitude_estimate.cpp       | 4 ++--
 eskf_vio_backend/src/propagate/sequence_propagator.cpp     | 4 ++--
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/eskf_vio_backend/include/propagate/attitude_estimate.hpp b/eskf_vio_backend/include/propagate/attitude_estimate.hpp
index d72afdf..b010230 100644
--- a/eskf_vio_backend/include/propagate/attitude_estimate.hpp
+++ b/eskf_vio_backend/include/propagate/attitude_estimate.hpp
@@ -2,6 +2,7 @@
 /* 外部依赖 */
 /* 内部依赖 */
 #include <typedef.hpp>
+#include <imu_state.hpp>
 
 namespace ESKF_VIO_BACKEND {
     /* 姿态解算估计结果队列中的一个元素 */
@@ -29,6 +30,8 @@ namespace ESKF_VIO_BACKEND {
         // IMU bias，由 update 过程进行更新
         Vector3 bias_a = Vector3::Zero();
         Vector3 bias_g = Vector3::Zero();
+        // 在 w 系下的重力加速度
+        Vector3 gravity_w = IMUFullState::gravity_w;
         // 姿态解算的 PI 控制器，积分部分的误差累加值
         Scalar Kp = Scalar(0.001);
         Scalar Ki = Scalar(0.0001);
diff --git a/eskf_vio_backend/include/propagate/sequence_propagator.hpp b/eskf_vio_backend/include/propagate/sequence_propagator.hpp
index fb2b9b0..0dff127 100644
--- a/eskf_vio_backend/include/propagate/sequence_propagator.hpp
+++ b/eskf_vio_backend/include/propagate/sequence_propagator.hpp
@@ -39,6 +39,8 @@ namespace ESKF_VIO_BACKEND {
         // 无 update 时的 IMU bias
         Vector3 bias_a = Vector3::Zero();
         Vector3 bias_g = Vector3::Zero();
+        // 在 w 系下的重力加速度
+        Vector3 gravity_w = IMUFullState::gravity_w;
         // 无 update 且 items 为空时的 motion state 初值，初值将在 eskf vio backend 初始化时从姿态解算结果中获取
         IMUMotionState initState;
         // 离散时间状态方程和过程噪声
diff --git a/eskf_vio_backend/src/backend/backend_config.cpp b/eskf_vio_backend/src/backend/backend_config.cpp
index ad6d4d8..c3c1fd5 100644
--- a/eskf_vio_backend/src/backend/backend_config.cpp
+++ b/eskf_vio_backend/src/backend/backend_config.cpp
@@ -20,7 +20,8 @@ namespace ESKF_VIO_BACKEND {
         this->propagator.bias_a = this->config->imu.defaultBiasAccel;
         this->propagator.bias_g = this->config->imu.defaultBiasGyro;
         this->attitudeEstimator.SetBias(this->config->imu.defaultBiasAccel, this->config->imu.defaultBiasGyro);
-        IMUFullState::gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
+        this->propagator.gravity_w << 0.0, 0.0, this->config->imu.gravityNorm;
+        this->attitudeEstimator.gravity_w = this->propagator.gravity_w;
 
         this->frameManager.extrinsics.clear();
         for (uint32_t i = 0; i < this->config->vision.default_p_bc.size(); ++i) {
diff --git a/eskf_vio_backend/src/propagate/attitude_estimate.cpp b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
index 3c67be4..85a5331 100644
--- a/eskf_vio_backend/src/propagate/attitude_estimate.cpp
+++ b/eskf_vio_backend/src/propagate/attitude_estimate.cpp
@@ -11,7 +11,7 @@ namespace ESKF_VIO_BACKEND {
         if (this->items.empty()) {
             /* 如果队列为空，则利用 accel 来给一个 attitude 初值 */
             Vector3 g_imu = accel - this->bias_a;
-            Vector3 g_word = IMUFullState::gravity_w;
+            Vector3 g_word = this->gravity_w;
             // 首先需要检查 accel 的模长是否和重力加速度一致，不一致的话不能初始化
             if (std::fabs(g_word.norm() - g_imu.norm()) > fp64(0.04)) {
                 LogInfo(">> Attitude estimator: imu accel norm " << g_imu.norm() <<
@@ -43,7 +43,7 @@ namespace ESKF_VIO_BACKEND {
             
             // 利用加速度观测，修正角速度中值
             Vector3 acc_b_measure = (accel - this->bias_a).normalized();
-            Vector3 acc_b_target = item_0->q_wb.inverse() * IMUFullState::gravity_w / IMUFullState::gravity_w.norm();
+            Vector3 acc_b_target = item_0->q_wb.inverse() * this->gravity_w / this->gravity_w.norm();
             Vector3 err = acc_b_measure.cross(acc_b_target);
             Vector3 gyrMid = Scalar(0.5) * (item_0->gyro + item_1->gyro) - this->bias_g;
             this->errInt += err * this->Ki;
diff --git a/eskf_vio_backend/src/propagate/sequence_propagator.cpp b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
index 3b58115..fb65950 100644
--- a/eskf_vio_backend/src/propagate/sequence_propagator.cpp
+++ b/eskf_vio_backend/src/propagate/sequence_propagator.cpp
@@ -51,7 +51,7 @@ namespace ESKF_VIO_BACKEND {
         // 中值积分递推名义状态，同时计算出 accel 和 gyro 的中值
         Vector3 midAccel, midGyro;
         this->PropagateMotionNominalState(item_0, item_1,
-                                          this->bias_a, this->bias_g, IMUFullState::gravity_w,
+                                          this->bias_a, this->bias_g, this->gravity_w,
                                           midAccel, midGyro);
         // 中值积分递推误差状态方程，更新 covariance
         this->PropagateFullErrorStateCovariance(item_0, item_1, midAccel, midGyro);
@@ -70,7 +70,7 @@ namespace ESKF_VIO_BACKEND {
             // 中值积分递推名义状态，同时计算出 accel 和 gyro 的中值
             Vector3 midAccel, midGyro;
             this->PropagateMotionNominalState(item_0, item_1,
-                                              this->bias_a, this->bias_g, IMUFullState::gravity_w,
+                                              this->bias_a, this->bias_g, this->gravity_w,
                                               midAccel, midGyro);
             // 中值积分递推误差状态方程，更新 covariance
             this->PropagateFullErrorStateCovariance(item_0, item_1, midAccel, midGyro);
-- 
2.43.0


From 8d651aa14a0ebd6000f76b3eacb3cc340d6a01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:26 +0000
Subject: [PATCH 33/33] fix: a frame is no longer read from the queue storage
 after it was popped

---
 eskf_vio_backend/src/data_manager/data_loader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eskf_vio_backend/src/data_manager/data_loader.cpp b/eskf_vio_backend/src/data_manager/data_loader.cpp
index 3d7cb67..da58ad6 100644
--- a/eskf_vio_backend/src/data_manager/data_loader.cpp
+++ b/eskf_vio_backend/src/data_manager/data_loader.cpp
@@ -58,8 +58,8 @@ namespace ESKF_VIO_BACKEND {
         output->Clear();
         // 如果队列都不为空，则输出时间戳最旧的数据
         if (!this->imuMeas.empty() && !this->featMeas.empty()) {
-            auto &imu = this->imuMeas.front();
-            auto &feat = this->featMeas.front();
+            auto imu = this->imuMeas.front();
+            auto feat = this->featMeas.front();
             if (feat->timeStamp <= imu->timeStamp) {
                 output->featMeas = feat;
                 this->featMeas.pop_front();
-- 
2.43.0

