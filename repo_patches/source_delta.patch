From 69f6c7da2ee261de14658d733185a0d220427341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 01/58] fix: dynamic engine waits for every dispatched element
 before run returns

When an element failed, run() returned while other elements were still executing; they then raced with the
next run (left_depend_, finished counters) and the error path notified the condition variable without its
mutex. With busy waiting enabled, run() could also return while the last worker still used the engine's lock.
---
 .../GDynamicEngine/GDynamicEngine.cpp         | 90 ++++++++-----------
 .../_GEngine/GDynamicEngine/GDynamicEngine.h  | 17 +++-
 2 files changed, 51 insertions(+), 56 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index 5bf8a5b..f3191d1 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -54,11 +54,12 @@ CVoid GDynamicEngine::commonRunAll() {
      * 2. 在element执行完成之后，进行裂变，直到所有的element执行完成
      * 3. 等待异步执行结束
      */
-    finished_end_size_.store(0, std::memory_order_release);
+    beginRun(1);    // 当前线程也算作一个执行者，避免任务还没有分发完，就被认定为执行结束
     for (auto* element : front_element_arr_) {
         process(element, element == front_element_arr_.back());
     }
 
+    endOne();
     fatWait();
 }
 
@@ -130,8 +131,11 @@ CVoid GDynamicEngine::process(GElementPtr element, const CBool affinity) {
         // 如果 affinity=true，表示用当前的线程，执行这个逻辑。以便增加亲和性
         innerExec(element);
     } else {
+        running_size_.fetch_add(1, std::memory_order_acq_rel);
         thread_pool_->execute([this, element] {
-            this->innerExec(element); }, element->binding_index_);
+            this->innerExec(element);
+            this->endOne();
+        }, element->binding_index_);
     }
 }
 
@@ -142,12 +146,9 @@ CVoid GDynamicEngine::innerExec(GElementPtr element) {
     if (likely(curStatus.isNotErr())) {
         afterElementRun(element);
     } else {
-        // 遇到异常情况，结束整体逻辑
-        {
-            CGRAPH_LOCK_GUARD lk(status_lock_);
-            cur_status_ += curStatus;
-        }
-        locker_.cv_.notify_one();
+        // 遇到异常情况，不再分发后续的element，等正在执行的内容结束之后，返回
+        CGRAPH_LOCK_GUARD lk(status_lock_);
+        cur_status_ += curStatus;
     }
 }
 
@@ -184,50 +185,52 @@ CVoid GDynamicEngine::afterElementRun(GElementPtr element) {
             }
             break;
         case internal::GElementShape::TAIL:
-            {
-                const auto curEndSize = finished_end_size_.fetch_add(1, std::memory_order_acq_rel) + 1;
-                if (curEndSize == total_end_size_) {
-                    CGRAPH_LOCK_GUARD lock(locker_.mtx_);
-                    locker_.cv_.notify_one();
-                }
-            }
             break;
         default:
             {
                 CGRAPH_LOCK_GUARD lk(status_lock_);
                 cur_status_.setErrorInfo("element shape type error");
             }
-            locker_.cv_.notify_one();
             break;
     }
 }
 
 
+CVoid GDynamicEngine::beginRun(const CSize size) {
+    finished_.store(false, std::memory_order_release);
+    running_size_.store(size, std::memory_order_release);
+}
+
+
+CVoid GDynamicEngine::endOne() {
+    if (1 == running_size_.fetch_sub(1, std::memory_order_acq_rel)) {
+        CGRAPH_LOCK_GUARD lock(locker_.mtx_);
+        finished_.store(true, std::memory_order_release);
+        locker_.cv_.notify_one();
+    }
+}
+
+
 CVoid GDynamicEngine::fatWait() {
     const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
-    for (CInt i = 0; i < epoch; i++) {
+    for (CInt i = 0; i < epoch && !finished_.load(std::memory_order_acquire); i++) {
         // 对于 pipeline 运行耗时很短的情况，在 进入 cv.wait() 之前，轮询等到一会
-        // 如果遇到 isErr() 的情况，还是走进入 mutex 的逻辑
-        if (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) {
-            return;
-        }
         CGRAPH_YIELD();
     }
 
+    /**
+     * 无论正常还是异常，均等待所有已经分发的element执行结束之后返回，避免影响到下一轮的执行
+     * 结束的时候必须经过 mutex，确保最后一个执行的线程，已经不再使用 locker_ 的信息
+     */
     CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
     locker_.cv_.wait(lock, [this] {
-        /**
-         * 遇到以下条件之一，结束执行：
-         * 1，执行结束
-         * 2，状态异常
-         */
-        return (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) || cur_status_.isErr();
+        return finished_.load(std::memory_order_acquire);
     });
 }
 
 
 CVoid GDynamicEngine::parallelRunAll() {
-    parallel_run_num_ = 0;
+    beginRun(total_end_size_);
     const CIndex& totalSize = static_cast<CIndex>(parallel_element_matrix_.size());
     for (CIndex i = 0; i < totalSize; i++) {
         auto& curArr = parallel_element_matrix_[i];
@@ -250,41 +253,20 @@ CVoid GDynamicEngine::parallelRunAll() {
         (void)thread_pool_->wakeupAllThread();
     }
 
-    const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
-    for (CInt i = 0; i < epoch; i++) {
-        if (parallel_run_num_ >= total_end_size_) {
-            return;
-        }
-        CGRAPH_YIELD();
-    }
-
-    {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.wait(lock, [this] {
-            return (parallel_run_num_ >= total_end_size_ || cur_status_.isErr());
-        });
-    }
+    fatWait();
 }
 
 
 CVoid GDynamicEngine::parallelRunOne(GElementPtr element) {
-    if (unlikely(cur_status_.isErr())) {
-        return;
-    }
-
-    const auto& status = element->fatProcessor(CFunctionType::RUN);
-    if (unlikely(status.isErr())) {
-        {
+    if (likely(!cur_status_.isErr())) {
+        const auto& status = element->fatProcessor(CFunctionType::RUN);
+        if (unlikely(status.isErr())) {
             CGRAPH_LOCK_GUARD lk(status_lock_);
             cur_status_ += status;
         }
     }
 
-    const auto finishedSize = parallel_run_num_.fetch_add(1, std::memory_order_release) + 1;
-    if (finishedSize >= total_end_size_ || cur_status_.isErr()) {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.notify_one();
-    }
+    endOne();
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index 92dd02d..cf432f9 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -71,6 +71,19 @@ protected:
      */
     CVoid afterElementRun(GElementPtr element);
 
+    /**
+     * 开始新一轮的执行
+     * @param size 初始的任务个数
+     * @return
+     */
+    CVoid beginRun(CSize size);
+
+    /**
+     * 结束一个任务，最后一个任务结束的时候，通知等待的一方
+     * @return
+     */
+    CVoid endOne();
+
     /**
      * 动态图运行等待
      * @param
@@ -107,9 +120,9 @@ private:
     GElementPtrArr total_element_arr_ {};                                                // pipeline中所有的元素信息集合
     GElementPtrArr front_element_arr_ {};                                                // 没有依赖的元素信息
     CSize total_end_size_ = 0;                                                           // 图结束节点数量
-    std::atomic<CSize> finished_end_size_ {0};                                        // 执行结束节点数量
+    std::atomic<CSize> running_size_ {0};                                             // 已经分发，且未执行结束的任务数量
+    std::atomic<CBool> finished_ {true};                                              // 本轮分发的任务，是否全部执行结束
     CStatus cur_status_ {};                                                              // 当前全局的状态信息
-    std::atomic<CSize> parallel_run_num_ {0};                                         // 纯并行时，执行的个数信息
     GElementPtrMat2D parallel_element_matrix_ {};                                        // 纯并行时，记录分解后的数据
     internal::GEngineDagType dag_type_ = { internal::GEngineDagType::COMMON };           // 当前元素的排布形式
 
-- 
2.43.0


From 1b9f9900e1faaec16222e2e1eed298920c65563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 02/58] fix: throw-by-status macro evaluates its status
 expression once

---
 src/CBasic/CFuncType.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CBasic/CFuncType.h b/src/CBasic/CFuncType.h
index 9a8cad6..74710b0 100644
--- a/src/CBasic/CFuncType.h
+++ b/src/CBasic/CFuncType.h
@@ -74,8 +74,11 @@ enum class CFunctionType {
 
 /** 在异常状态的情况下，抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_STATUS(status)                        \
-    if (unlikely((status).isErr())) {                                   \
-        CGRAPH_THROW_EXCEPTION((status).getInfo()); }                   \
+    {                                                                   \
+        const CStatus& __cur_status__ = (status);                       \
+        if (unlikely(__cur_status__.isErr())) {                         \
+            CGRAPH_THROW_EXCEPTION(__cur_status__.getInfo()); }         \
+    }                                                                   \
 
 /** 根据条件判断是否抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_CONDITION(cond, info)                 \
-- 
2.43.0


From 9aaff4dc82becffa3617fdf7f6acde3c8c7e6d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 03/58] fix: static and topo engines return a crash as the run
 status instead of throwing past the pipeline

---
 .../GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp    | 5 ++++-
 .../GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp        | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
index 661299a..1b59d1e 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
@@ -70,7 +70,10 @@ CStatus GStaticEngine::run() {
         for (auto& future : futures) {
             status += future.get();
         }
-        CGRAPH_FUNCTION_CHECK_STATUS
+
+        if (unlikely(status.isErr())) {
+            break;    // 包含崩溃的情况，统一作为结果返回，由上层完成收尾逻辑
+        }
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
index 35ad44c..f65ec02 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
@@ -25,7 +25,9 @@ CStatus GTopoEngine::run() {
     CGRAPH_FUNCTION_BEGIN
     for (auto* element : topo_elements_) {
         status += element->fatProcessor(CFunctionType::RUN);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (unlikely(status.isErr())) {
+            break;    // 包含崩溃的情况，统一作为结果返回，由上层完成收尾逻辑
+        }
     }
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From c1f7a711b1593e13828a1967f7614ea13cc4b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 04/58] fix: assigning a status replaces the message even when
 the error codes are equal

---
 src/CBasic/CStatus.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CBasic/CStatus.h b/src/CBasic/CStatus.h
index d43e406..f15d095 100644
--- a/src/CBasic/CStatus.h
+++ b/src/CBasic/CStatus.h
@@ -60,8 +60,8 @@ public:
     }
 
     CSTATUS& operator=(const CSTATUS& status) {
-        if (this->error_code_ != status.error_code_) {
-            // 如果status是正常的话，则所有数据保持不变
+        if (STATUS_OK != this->error_code_ || STATUS_OK != status.error_code_) {
+            // 如果前后的status都是正常的话，则所有数据保持不变
             this->error_code_ = status.error_code_;
             this->error_info_ = status.error_info_;
         }
-- 
2.43.0


From 7dad02880410aa7b1e7d414de1fc3f5835f7c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 05/58] fix: elements are initialised in level order also when
 the level is set after registration

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 34a49bb..71aacac 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -27,6 +27,9 @@ CStatus GElementManager::init() {
         CGRAPH_ASSERT_NOT_NULL(element)
     }
 
+    // level 信息，可能在加入之后又被修改过，故在这里重新排序
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
+
     status = initEngine();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From 0caf73bb662097a0d8ffd914c3069515dce58d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 06/58] fix: some-group waits for its remaining children before
 the run returns or the group executes again

---
 .../GraphElement/GElementRepository.cpp       | 10 +++++
 .../GraphElement/GElementRepository.h         |  3 ++
 .../GraphElement/GGroup/GSome/GSome.cpp       | 40 ++++++++++++++++---
 .../GraphElement/GGroup/GSome/GSome.h         | 10 +++++
 4 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 40fc749..52f41d4 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -43,6 +43,11 @@ CStatus GElementRepository::setup() {
 
 CStatus GElementRepository::reset() {
     CGRAPH_FUNCTION_BEGIN
+    for (auto& cur : some_elements_) {
+        // some 中没有被等待的 element，需要在流程结束之前，全部执行完成
+        status += cur->waitLeft();
+    }
+
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
@@ -115,6 +120,7 @@ CBool GElementRepository::isCancelState() const {
 CStatus GElementRepository::init() {
     CGRAPH_FUNCTION_BEGIN
     async_elements_.clear();    // 每次记得清空这里。因为每次init之后，都可能不一样
+    some_elements_.clear();
     for (auto& element : elements_) {
         /**
          * 1. 查验element是否为空
@@ -129,6 +135,10 @@ CStatus GElementRepository::init() {
         if (element->isAsync()) {
             async_elements_.emplace(element);
         }
+
+        if (GElementType::SOME == element->element_type_) {
+            some_elements_.emplace_back(static_cast<GSome *>(element));
+        }
     }
 
     // 每次初始化之后，所有的状态，都可以恢复了
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 1b6cf17..acae35f 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -15,6 +15,8 @@
 
 CGRAPH_NAMESPACE_BEGIN
 
+class GSome;
+
 class GElementRepository : public GElementObject {
 private:
     /**
@@ -91,6 +93,7 @@ private:
     GElementPtrSet elements_ {};                                    // 用于记录所有的element信息
     GElementState cur_state_ { GElementState::NORMAL };             // 当前状态信息
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
+    std::vector<GSome *> some_elements_ {};                         // 所有的 some，用于等待其中没有执行完成的逻辑
 
     friend class GPipeline;
     friend class GPerf;
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
index a39d284..e39af0d 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
@@ -40,10 +40,19 @@ CStatus GSome::addElementEx(GElementPtr element) {
 CStatus GSome::run()  {
     CGRAPH_FUNCTION_BEGIN
 
-    wait_num_ = static_cast<CInt>(getWaitNum());
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(wait_num_ > children_.size(),
+    const CSize waitNum = getWaitNum();
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(waitNum > children_.size(),
         "num is bigger than elements size.");
-    cur_status_.reset();
+
+    /** 如果上一次执行（比如，外层 group 循环执行的时候）还有遗留的 element，需要先等待其结束 */
+    status = waitLeft();
+    CGRAPH_FUNCTION_CHECK_STATUS
+
+    for (auto* element : children_) {
+        element->done_ = false;
+    }
+    wait_num_ = static_cast<CInt>(waitNum);
+    left_num_ = children_.size();
 
     /**
      * 1. 并发的执行，其中的所有逻辑信息
@@ -57,9 +66,10 @@ CStatus GSome::run()  {
                 const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
                 CGRAPH_UNIQUE_LOCK lock(lock_);
                 cur_status_ += curStatus;
-                if (--wait_num_ <= 0 || cur_status_.isErr()) {
-                    cv_.notify_one();
-                }
+                element->done_ = true;
+                --wait_num_;
+                --left_num_;
+                cv_.notify_all();
             }
         }, binding_index_);
     }
@@ -79,6 +89,24 @@ CStatus GSome::run()  {
 }
 
 
+CStatus GSome::waitLeft() {
+    CGRAPH_FUNCTION_BEGIN
+    CGRAPH_UNIQUE_LOCK lock(lock_);
+    cv_.wait(lock, [this] {
+        return 0 == left_num_;
+    });
+
+    for (auto* element : children_) {
+        // 已经全部执行结束，恢复因为没有被等待而设置的 timeout 状态
+        auto state = GElementState::TIMEOUT;
+        element->cur_state_.compare_exchange_strong(state, GElementState::NORMAL);
+    }
+    status = cur_status_;
+    cur_status_.reset();
+    CGRAPH_FUNCTION_END
+}
+
+
 CBool GSome::isSerializable() const {
     return false;    // 情况较为复杂，默认不可以
 }
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
index f8c8b0b..4870a01 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
@@ -42,8 +42,17 @@ protected:
 
     CStatus addElementEx(GElementPtr element) override;
 
+private:
+    /**
+     * 等待所有的 element 执行结束，包括 group 结束之后仍在执行的
+     * @return
+     * @notice 返回的是本次执行的状态信息
+     */
+    CStatus waitLeft();
+
 private:
     CInt wait_num_ {0};                        // 还剩的触发结束的个数
+    CSize left_num_ {0};                       // 还没有执行结束的个数
     CStatus cur_status_ ;                      // 记录异步时刻的当前状态信息
 
     std::mutex lock_;
@@ -51,6 +60,7 @@ private:
 
     friend class GPipeline;
     friend class GDynamicEngine;
+    friend class GElementRepository;
     friend class CAllocator;
     friend class GStorageFactory;
 };
-- 
2.43.0


From ec009530719ed4ce91a7bc0830f5a26a2ce53afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 07/58] fix: a mutable group does not execute anything when its
 reshape is not a dag

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 71aacac..3bb3656 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -182,8 +182,10 @@ CStatus GElementManager::process(const GSortedGElementPtrSet& elements) {
     CGRAPH_ASSERT_NOT_NULL(engine_)
 
     // 主要是给 mutable 使用
-    status += engine_->setup(elements);
-    status += run();
+    status = engine_->setup(elements);
+    CGRAPH_FUNCTION_CHECK_STATUS
+
+    status = run();
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From bbb330d9d7570c83f7c3e6e81e542db7eb209e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 08/58] fix: listing the used parameter keys no longer touches
 removed parameters

---
 src/GraphCtrl/GraphParam/GParamManagerWrapper.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
index 6e1a69f..9a8a4ca 100644
--- a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
+++ b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
@@ -11,6 +11,7 @@
 
 #include <string>
 #include <vector>
+#include <set>
 
 #include "GParam.h"
 #include "GParamManager.h"
@@ -44,7 +45,7 @@ CGRAPH_NAMESPACE_BEGIN
         CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(param_manager_)                              \
         auto param = param_manager_->get<TGParam>(key);                                 \
         if (nullptr != param) {                                                         \
-            concerned_params_.insert(param);                                            \
+            concerned_params_.insert(key);                                              \
             param->addBacktrace(name_.empty() ? session_ : name_);                      \
         }                                                                               \
         return param;                                                                   \
@@ -90,11 +91,8 @@ CGRAPH_NAMESPACE_BEGIN
      * @return
      */                                                                                 \
     std::vector<std::string> getConcernedGParamKeys() const {                           \
-        std::vector<std::string> keys;                                                  \
-        for (auto param : concerned_params_) {                                          \
-            keys.emplace_back(param->getKey());                                         \
-        }                                                                               \
-        return keys;                                                                    \
+        /* 仅记录 key 信息，因为对应的 GParam 可能已经被删除了 */                              \
+        return {concerned_params_.begin(), concerned_params_.end()};                    \
     }                                                                                   \
                                                                                         \
 public:                                                                                 \
@@ -134,7 +132,7 @@ private:
         return this;                                                                    \
     }                                                                                   \
                                                                                         \
-    GParamPtrSet concerned_params_;    /* 记录链路上使用过GParam信息 */                    \
+    std::set<std::string> concerned_params_;    /* 记录链路上使用过GParam的key信息 */       \
                                                                                         \
 protected:                                                                              \
                                                                                         \
-- 
2.43.0


From 7b9a2a50fb2f5013543da19d064a7df66fd2bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 09/58] fix: reading a parameter is safe while another element
 creates or removes one

---
 src/GraphCtrl/GraphParam/GParamManager.cpp | 3 ++-
 src/GraphCtrl/GraphParam/GParamManager.inl | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManager.cpp b/src/GraphCtrl/GraphParam/GParamManager.cpp
index 51442d8..093ac92 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.cpp
+++ b/src/GraphCtrl/GraphParam/GParamManager.cpp
@@ -114,7 +114,8 @@ CStatus GParamManager::__create_4py(GParamPtr param, const std::string& key) {
 
 
 GParamPtr GParamManager::__get_4py(const std::string& key) {
-    const auto& iter = params_map_.find(key);
+    CGRAPH_LOCK_GUARD lock(this->mutex_);
+    auto iter = params_map_.find(key);
     if (iter == params_map_.end()) {
         return nullptr;
     }
diff --git a/src/GraphCtrl/GraphParam/GParamManager.inl b/src/GraphCtrl/GraphParam/GParamManager.inl
index 09b2026..97afc3d 100644
--- a/src/GraphCtrl/GraphParam/GParamManager.inl
+++ b/src/GraphCtrl/GraphParam/GParamManager.inl
@@ -39,7 +39,8 @@ CStatus GParamManager::create(const std::string& key, CBool backtrace) {
 template<typename T,
         c_enable_if_t<std::is_base_of<GParam, T>::value, int>>
 T* GParamManager::get(const std::string& key) {
-    const auto& iter = params_map_.find(key);
+    CGRAPH_LOCK_GUARD lock(this->mutex_);    // 可能有其他的 element，正在创建或者删除参数
+    auto iter = params_map_.find(key);
     if (iter == params_map_.end()) {
         return nullptr;
     }
-- 
2.43.0


From 9072b6bfb4ce9f1953ff215d260dfaba0ce460d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 10/58] fix: a stage releases every element of a complete batch
 even when the next batch is already entering

---
 src/GraphCtrl/GraphStage/GStage.cpp | 7 +++++--
 src/GraphCtrl/GraphStage/GStage.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphStage/GStage.cpp b/src/GraphCtrl/GraphStage/GStage.cpp
index d0d2197..3c63e1a 100644
--- a/src/GraphCtrl/GraphStage/GStage.cpp
+++ b/src/GraphCtrl/GraphStage/GStage.cpp
@@ -37,12 +37,15 @@ CVoid GStage::waiting() {
         // 如果超过了 threshold，则打开全部
         launch(param_);
         cur_value_ = 0;
+        epoch_++;
         locker_.cv_.notify_all();
         return;
     }
 
-    locker_.cv_.wait(lk, [this] {
-        return 0 == cur_value_ || cur_value_ >= threshold_;
+    /** 通过批次信息，判断是否放行。因为 cur_value_ 可能已经被下一批进入的 element 修改了 */
+    const CSize epoch = epoch_;
+    locker_.cv_.wait(lk, [this, epoch] {
+        return epoch != epoch_;
     });
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStage.h b/src/GraphCtrl/GraphStage/GStage.h
index fdc26db..a771e34 100644
--- a/src/GraphCtrl/GraphStage/GStage.h
+++ b/src/GraphCtrl/GraphStage/GStage.h
@@ -61,6 +61,7 @@ private:
 private:
     CInt threshold_ { 0 };                // 阈值信息
     CInt cur_value_ { 0 };                // 当前值
+    CSize epoch_ { 0 };                   // 已经放行的批次信息
     GStageParamPtr param_ { nullptr };    // 参数信息
     UCvMutex locker_;
 
-- 
2.43.0


From d6806a2bd8e724429871ef36cd8a6e2781748cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:04 +0000
Subject: [PATCH 11/58] fix: a stage registered twice under one key is refused
 instead of leaked

---
 src/GraphCtrl/GraphPipeline/GPipeline.inl | 2 +-
 src/GraphCtrl/GraphStage/GStageManager.h  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index bb26dc6..8aa6a9d 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -257,7 +257,7 @@ GPipelinePtr GPipeline::addGStage(const std::string& key, CInt threshold, TParam
     CGRAPH_THROW_EXCEPTION_BY_CONDITION(threshold <= 0, "threshold value must bigger than 0")
 
     stage_manager_->setGParamManager(param_manager_);
-    stage_manager_->create<TStage, TParam>(key, threshold, param);
+    CGRAPH_THROW_EXCEPTION_BY_STATUS((stage_manager_->create<TStage, TParam>(key, threshold, param)))
     return this;
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStageManager.h b/src/GraphCtrl/GraphStage/GStageManager.h
index 911ce4d..58b0278 100644
--- a/src/GraphCtrl/GraphStage/GStageManager.h
+++ b/src/GraphCtrl/GraphStage/GStageManager.h
@@ -64,6 +64,8 @@ protected:
             c_enable_if_t<std::is_base_of<GStageParam, TParam>::value, int> = 0>
     CStatus create(const std::string& key, CInt threshold, TParam* param) {
         CGRAPH_FUNCTION_BEGIN
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(stage_map_.find(key) != stage_map_.end(),
+                                                "[" + key + "] add stage duplicate");
         GStagePtr stage = CGRAPH_SAFE_MALLOC_COBJECT(TStage);
         stage->setThreshold(threshold);
         stage->setSParam(param);
-- 
2.43.0


From 7e262030a595e52bf513edd272b6faf96aa92d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 12/58] fix: concurrently triggered events may read parameters

---
 src/GraphCtrl/GraphParam/GParamManagerWrapper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
index 9a8a4ca..0698234 100644
--- a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
+++ b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
@@ -12,6 +12,7 @@
 #include <string>
 #include <vector>
 #include <set>
+#include <mutex>
 
 #include "GParam.h"
 #include "GParamManager.h"
@@ -45,7 +46,10 @@ CGRAPH_NAMESPACE_BEGIN
         CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(param_manager_)                              \
         auto param = param_manager_->get<TGParam>(key);                                 \
         if (nullptr != param) {                                                         \
-            concerned_params_.insert(key);                                              \
+            {                                                                           \
+                CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                         \
+                concerned_params_.insert(key);                                          \
+            }                                                                           \
             param->addBacktrace(name_.empty() ? session_ : name_);                      \
         }                                                                               \
         return param;                                                                   \
@@ -92,6 +96,7 @@ CGRAPH_NAMESPACE_BEGIN
      */                                                                                 \
     std::vector<std::string> getConcernedGParamKeys() const {                           \
         /* 仅记录 key 信息，因为对应的 GParam 可能已经被删除了 */                              \
+        CGRAPH_LOCK_GUARD lock(concerned_params_lock_);                                 \
         return {concerned_params_.begin(), concerned_params_.end()};                    \
     }                                                                                   \
                                                                                         \
@@ -133,6 +138,7 @@ private:
     }                                                                                   \
                                                                                         \
     std::set<std::string> concerned_params_;    /* 记录链路上使用过GParam的key信息 */       \
+    mutable std::mutex concerned_params_lock_;    /* event 可能被并发触发 */               \
                                                                                         \
 protected:                                                                              \
                                                                                         \
-- 
2.43.0


From 42f9eeeb1e0ef06208a110d6c5970c823e36c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 13/58] fix: asynchronously triggered events finish before the
 pipeline's thread pool is destroyed

---
 src/GraphCtrl/GraphEvent/GEvent.cpp        |  1 +
 src/GraphCtrl/GraphEvent/GEventManager.cpp | 10 ++++++++++
 src/GraphCtrl/GraphEvent/GEventManager.h   |  6 ++++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp  |  5 +++--
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphEvent/GEvent.cpp b/src/GraphCtrl/GraphEvent/GEvent.cpp
index 52ff07e..26c81f0 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.cpp
+++ b/src/GraphCtrl/GraphEvent/GEvent.cpp
@@ -36,6 +36,7 @@ CStatus GEvent::fatDestroy() {
     asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
     async_run_finish_futures_.clear();
     async_destroy_futures_.clear();
+    thread_pool_ = nullptr;    // 线程池已经析构了，再次 init 的时候，会重新设置
 
     status = destroy();
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphEvent/GEventManager.cpp b/src/GraphCtrl/GraphEvent/GEventManager.cpp
index 032f9fa..63857ad 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.cpp
+++ b/src/GraphCtrl/GraphEvent/GEventManager.cpp
@@ -90,6 +90,16 @@ CStatus GEventManager::reset() {
 }
 
 
+CStatus GEventManager::waitAll() {
+    CGRAPH_FUNCTION_BEGIN
+    for (auto& iter : events_map_) {
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
+    }
+    CGRAPH_FUNCTION_END
+}
+
+
 CStatus GEventManager::__create_4py(GEventPtr event, const std::string& key) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(event)
diff --git a/src/GraphCtrl/GraphEvent/GEventManager.h b/src/GraphCtrl/GraphEvent/GEventManager.h
index cffa85b..5d73d91 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.h
+++ b/src/GraphCtrl/GraphEvent/GEventManager.h
@@ -66,6 +66,12 @@ protected:
 
     CStatus reset() final;
 
+    /**
+     * 等待所有需要被等待的异步event，执行结束
+     * @return
+     */
+    CStatus waitAll();
+
     CGRAPH_NO_ALLOWED_COPY(GEventManager)
 
 private:
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 39f97ed..f35788d 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -88,11 +88,12 @@ CStatus GPipeline::destroy() {
      * 否则的话，在错误status累积的情况下，在windows平台上，会产生崩溃
      */
     status += repository_.destroy();
-    status += schedule_.destroy();
     CGRAPH_FUNCTION_CHECK_STATUS
 
+    status += daemon_manager_->destroy();    // daemon 可能会触发 event，故最先停止
+    status += event_manager_->waitAll();     // 异步触发的 event 依赖线程池，故需要在线程池析构之前，等待其执行结束
+    status += schedule_.destroy();
     status += event_manager_->destroy();
-    status += daemon_manager_->destroy();
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
-- 
2.43.0


From 8382241b0498332407614485edfc6ad892e0f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 14/58] fix: an asynchronously triggered event does not block a
 serial pipeline forever

---
 src/GraphCtrl/GraphEvent/GEvent.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphEvent/GEvent.cpp b/src/GraphCtrl/GraphEvent/GEvent.cpp
index 26c81f0..ddf7b49 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.cpp
+++ b/src/GraphCtrl/GraphEvent/GEvent.cpp
@@ -64,9 +64,19 @@ CStatus GEvent::process(GEventType type, GEventAsyncStrategy strategy) {
 
 std::shared_future<CVoid> GEvent::asyncProcess(GEventAsyncStrategy strategy) {
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(thread_pool_)
-    std::shared_future<CVoid> future = thread_pool_->commit([this] {
-        this->trigger(this->param_);
-    }, CGRAPH_POOL_TASK_STRATEGY);
+    std::shared_future<CVoid> future;
+    if (0 == thread_pool_->getConfig().max_thread_size_) {
+        /** 线程池中没有线程（如：makeSerial之后），则在当前线程直接执行 */
+        std::packaged_task<CVoid()> task([this] {
+            this->trigger(this->param_);
+        });
+        future = task.get_future();
+        task();
+    } else {
+        future = thread_pool_->commit([this] {
+            this->trigger(this->param_);
+        }, CGRAPH_POOL_TASK_STRATEGY);
+    }
 
     /**
      * 根据具体策略，将 future信息放到对应的容器中
-- 
2.43.0


From 3c184260c05624098755e3b9bd5eea088ec487c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 15/58] fix: stopping a timer never waits for its whole
 interval

---
 src/UtilsCtrl/Timer/UTimer.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/Timer/UTimer.h b/src/UtilsCtrl/Timer/UTimer.h
index f85c715..76e6cc5 100644
--- a/src/UtilsCtrl/Timer/UTimer.h
+++ b/src/UtilsCtrl/Timer/UTimer.h
@@ -45,8 +45,10 @@ public:
         future_ = std::async(std::launch::async, [this, task, modify]() {
              while (!is_stop_) {
                  CGRAPH_UNIQUE_LOCK lk(mutex_);
-                 auto result = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_));
-                 if (std::cv_status::timeout == result && !is_stop_) {
+                 const CBool stopped = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_), [this] {
+                     return is_stop_.load(std::memory_order_acquire);
+                 });
+                 if (!stopped) {
                      CMSec start = CGRAPH_GET_CURRENT_MS();
                      task();
                      CMSec ms = modify();
@@ -79,6 +81,9 @@ public:
             return;
         }
 
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);    // 确保通知不会在执行线程进入 wait 之前丢失
+        }
         cv_.notify_one();
         future_.wait();
     }
-- 
2.43.0


From 2816f822c714d46b7c35f6bb6d698ae8af4798f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 16/58] fix: daemons are not started when the init of the
 pipeline has failed

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index f35788d..ae074b1 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -45,6 +45,8 @@ CStatus GPipeline::init() {
     status += event_manager_->init();
     status += element_manager_->init();
     status += stage_manager_->init();
+    CGRAPH_FUNCTION_CHECK_STATUS
+
     status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From 8b92edf3cab4641f181702124ea7a1f0af91658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 17/58] fix: a small vector can be copied, cleared and extended
 by its own elements for every element type

---
 src/UtilsCtrl/Container/USmallVector.h | 37 +++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/Container/USmallVector.h b/src/UtilsCtrl/Container/USmallVector.h
index 9f818c4..cf34e93 100644
--- a/src/UtilsCtrl/Container/USmallVector.h
+++ b/src/UtilsCtrl/Container/USmallVector.h
@@ -25,6 +25,18 @@ public:
         cur_index_ = 0;
     }
 
+    USmallVector(const USmallVector& vec) : UtilsObject(vec) {
+        copyFrom(vec);
+    }
+
+    USmallVector& operator=(const USmallVector& vec) {
+        if (this != &vec) {
+            CGRAPH_DELETE_PTR_ARRAY(data_)
+            copyFrom(vec);
+        }
+        return *this;
+    }
+
     ~USmallVector() override {
         CGRAPH_DELETE_PTR_ARRAY(data_)
     }
@@ -46,12 +58,15 @@ public:
             T* curData = new T[curCapacity];
             CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(curData)
 
-            std::move(data_, data_ + capacity_, curData);
+            curData[cur_index_] = val;    // val 可能是当前容器中的元素，故在搬移之前赋值
+            std::move(data_, data_ + cur_index_, curData);
             CGRAPH_DELETE_PTR_ARRAY(data_)
             data_ = curData;
             capacity_ = curCapacity;
+        } else {
+            data_[cur_index_] = val;
         }
-        data_[cur_index_++] = std::move(val);
+        cur_index_++;
     }
 
     CSize size() const {
@@ -65,7 +80,9 @@ public:
     CVoid clear() {
         // 这里只清空内容，不回收内存信息
         cur_index_ = 0;
-        memset(data_, 0, sizeof(T) * capacity_);
+        for (CSize i = 0; i < capacity_; i++) {
+            data_[i] = T();
+        }
     }
 
     CBool remove(const T& val) {
@@ -142,6 +159,20 @@ public:
     const T& operator[](CSize index) const { return data_[index]; }
 
 private:
+    /**
+     * 拷贝信息，进入前需要确保 data_ 中没有内容
+     * @param vec
+     * @return
+     */
+    CVoid copyFrom(const USmallVector& vec) {
+        data_ = vec.data_ ? new T[vec.capacity_] : nullptr;
+        cur_index_ = vec.cur_index_;
+        capacity_ = vec.capacity_;
+        for (CSize i = 0; i < cur_index_; i++) {
+            data_[i] = vec.data_[i];
+        }
+    }
+
     T* data_ { nullptr };          // 存放具体数据
     CSize cur_index_ { 0 };        // 当前元素数量
     CSize capacity_ { 0 };         // 数组容量
-- 
2.43.0


From 0d7c7418f2877d55b8d8bc4db9cd4f00416c5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 18/58] fix: cosine distance refuses vectors of different
 dimensions when checking is on

---
 src/UtilsCtrl/Distance/Common/UCosineDistance.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/UtilsCtrl/Distance/Common/UCosineDistance.h b/src/UtilsCtrl/Distance/Common/UCosineDistance.h
index 75ee539..e6e630a 100644
--- a/src/UtilsCtrl/Distance/Common/UCosineDistance.h
+++ b/src/UtilsCtrl/Distance/Common/UCosineDistance.h
@@ -31,6 +31,19 @@ public:
         result = result / (std::sqrt(val1) * std::sqrt(val2));
         CGRAPH_FUNCTION_END
     }
+
+
+    CStatus check(const TSrc* v1, const TSrc* v2, CSize dim1, CSize dim2, CVoidPtr ext) override {
+        CGRAPH_FUNCTION_BEGIN
+        CGRAPH_ASSERT_NOT_NULL(v1)
+        CGRAPH_ASSERT_NOT_NULL(v2)
+        if (dim1 != dim2 || 0 == dim1 * dim2) {
+            // 不相等，或者有任何一个值为0，则认为是异常
+            CGRAPH_RETURN_ERROR_STATUS("cosine distance dim error")
+        }
+
+        CGRAPH_FUNCTION_END
+    }
 };
 
 CGRAPH_NAMESPACE_END
-- 
2.43.0


From 50357aef283549ec7be3e0ddea10729ca86cdbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 19/58] fix: the priority queue orders tasks by their priority,
 highest first, instead of by address

---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h | 8 +++++++-
 src/UtilsCtrl/ThreadPool/Task/UTask.h                 | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 552f4f5..fa3feea 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -86,7 +86,13 @@ public:
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
-    std::priority_queue<std::unique_ptr<T> > priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
+    struct Less {
+        CBool operator()(const std::unique_ptr<T>& lhs, const std::unique_ptr<T>& rhs) const {
+            return *lhs < *rhs;    // 比较任务本身，而不是指针的值
+        }
+    };
+
+    std::priority_queue<std::unique_ptr<T>, std::vector<std::unique_ptr<T> >, Less> priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
 };
 
 CGRAPH_NAMESPACE_END
diff --git a/src/UtilsCtrl/ThreadPool/Task/UTask.h b/src/UtilsCtrl/ThreadPool/Task/UTask.h
index e0e9d6c..9c2864f 100644
--- a/src/UtilsCtrl/ThreadPool/Task/UTask.h
+++ b/src/UtilsCtrl/ThreadPool/Task/UTask.h
@@ -56,11 +56,11 @@ public:
     }
 
     CBool operator>(const UTask& task) const {
-        return priority_ < task.priority_;    // 新加入的，放到后面
+        return priority_ > task.priority_;
     }
 
     CBool operator<(const UTask& task) const {
-        return priority_ >= task.priority_;
+        return priority_ < task.priority_;    // 优先级别，自然序从大到小依次执行
     }
 
     CGRAPH_NO_ALLOWED_COPY(UTask)
-- 
2.43.0


From 23f1cd320e9bb517aa5a0d2a011171c887f3e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 20/58] fix: a ring buffer queue can be used again after clear

---
 .../ThreadPool/Queue/UAtomicRingBufferQueue.h         | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index f191afc..2beda1f 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -114,9 +114,14 @@ public:
      */
     CStatus clear() {
         CGRAPH_FUNCTION_BEGIN
-        ring_buffer_queue_.resize(0);
-        head_ = 0;
-        tail_ = 0;
+        {
+            CGRAPH_UNIQUE_LOCK lk(mutex_);
+            ring_buffer_queue_.clear();
+            ring_buffer_queue_.resize(capacity_);    // 清空之后，依旧可以继续写入
+            head_ = 0;
+            tail_ = 0;
+        }
+        push_cv_.notify_all();
         CGRAPH_FUNCTION_END
     }
 
-- 
2.43.0


From 2c5ef0afe85efe00d51e941c179bb96ceaca72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 21/58] fix: a ring buffer queue holds as many elements as its
 capacity

---
 .../ThreadPool/Queue/UAtomicRingBufferQueue.h | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index 2beda1f..b4199b7 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -25,7 +25,7 @@ public:
         head_ = 0;
         tail_ = 0;
         capacity_ = capacity;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(slotSize());
     }
 
     ~UAtomicRingBufferQueue() override {
@@ -40,7 +40,7 @@ public:
      */
     UAtomicRingBufferQueue* setCapacity(const CUInt size) {
         capacity_ = size;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(slotSize());
         return this;
     }
 
@@ -69,7 +69,7 @@ public:
                         push_cv_.wait(lk, [this] { return !isFull(); });
                         break;
                     case URingBufferPushStrategy::REPLACE:
-                        head_ = (head_ + 1) % capacity_;
+                        head_ = (head_ + 1) % slotSize();
                         break;
                     case URingBufferPushStrategy::DROP:
                         return;    // 直接返回，不写入即可
@@ -77,7 +77,7 @@ public:
             }
 
             ring_buffer_queue_[tail_] = value;
-            tail_ = (tail_ + 1) % capacity_;
+            tail_ = (tail_ + 1) % slotSize();
         }
         pop_cv_.notify_one();
     }
@@ -102,7 +102,7 @@ public:
             }
 
             value = std::move(ring_buffer_queue_[head_]);
-            head_ = (head_ + 1) % capacity_;
+            head_ = (head_ + 1) % slotSize();
         }
         push_cv_.notify_one();
         CGRAPH_FUNCTION_END
@@ -117,7 +117,7 @@ public:
         {
             CGRAPH_UNIQUE_LOCK lk(mutex_);
             ring_buffer_queue_.clear();
-            ring_buffer_queue_.resize(capacity_);    // 清空之后，依旧可以继续写入
+            ring_buffer_queue_.resize(slotSize());    // 清空之后，依旧可以继续写入
             head_ = 0;
             tail_ = 0;
         }
@@ -132,7 +132,7 @@ protected:
      */
     CBool isFull() const {
         // 空出来一个位置，这个时候不让 tail写入
-        return head_ == (tail_ + 1) % capacity_;
+        return head_ == (tail_ + 1) % slotSize();
     }
 
     /**
@@ -143,6 +143,14 @@ protected:
         return head_ == tail_;
     }
 
+    /**
+     * 实际的槽位数量。比容量多一个空出来的位置，确保可以存放 capacity_ 个信息
+     * @return
+     */
+    CUInt slotSize() const {
+        return capacity_ + 1;
+    }
+
     CGRAPH_NO_ALLOWED_COPY(UAtomicRingBufferQueue)
 
 private:
-- 
2.43.0


From bd3d873067ab35dd227fc9e031b5f01c437bb96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 22/58] fix: the lock-free ring buffer queue can be
 instantiated

---
 src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
index a5efc7a..c020230 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
@@ -42,7 +42,7 @@ public:
             CGRAPH_YIELD();
         }
 
-        ring_buffer_[curTail] = std::move(value);
+        ring_buffer_[curTail] = c_make_unique<T>(std::move(value));
         tail_.store(nextTail, std::memory_order_release);
     }
 
@@ -58,7 +58,8 @@ public:
             return false;
         }
 
-        value = std::move(ring_buffer_[curHead]);
+        value = std::move(*ring_buffer_[curHead]);
+        ring_buffer_[curHead].reset();
 
         const int nextHead = (curHead + 1) % CAPACITY;
         head_.store(nextHead, std::memory_order_release);
-- 
2.43.0


From d37437f08557f2e60b71917f2b83268e90681947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 23/58] fix: a semaphore waits until it is signalled

---
 src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
index 5247a9a..e8bfc3a 100644
--- a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
+++ b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
@@ -9,13 +9,13 @@
 #ifndef CGRAPH_USEMAPHORE_H
 #define CGRAPH_USEMAPHORE_H
 
-CGRAPH_NAMESPACE_BEGIN
-
 #include <mutex>
 #include <condition_variable>
 
 #include "../UThreadObject.h"
 
+CGRAPH_NAMESPACE_BEGIN
+
 class USemaphore : public UThreadObject {
 public:
     /**
@@ -24,9 +24,7 @@ public:
     CVoid signal() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
         cnt_++;
-        if (cnt_ <= 0) {
-            cv_.notify_one();
-        }
+        cv_.notify_one();
     }
 
     /**
@@ -34,10 +32,10 @@ public:
      */
     CVoid wait() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
-        cnt_--;
         cv_.wait(lk, [this] {
-            return cnt_ < 0;
+            return cnt_ > 0;
         });
+        cnt_--;
     }
 
 private:
-- 
2.43.0


From 0be3bf6a8328efb2f4f5edb855189344f965bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 24/58] fix: released helper threads no longer count against
 the thread limit, and joining one does not hold the lock its task may need

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 31 ++++++++++++++++++++----
 src/UtilsCtrl/ThreadPool/UThreadPool.h   |  6 +++++
 src/UtilsCtrl/ThreadPool/UThreadPool.inl |  2 +-
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 3233d75..6653b80 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -6,6 +6,8 @@
 @Desc: 
 ***************************/
 
+#include <algorithm>
+
 #include "UThreadPool.h"
 
 CGRAPH_NAMESPACE_BEGIN
@@ -186,10 +188,14 @@ CBool UThreadPool::isInit() const {
 CStatus UThreadPool::releaseSecondaryThread(CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
-    // 先将所有已经结束的，给删掉
+    // 先将所有已经结束的，给删掉。等待线程退出的过程在锁外进行（先于 lock 声明），防止与正在执行的任务互相等待
+    std::list<std::unique_ptr<UThreadSecondary>> released;
     CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-        !(*iter)->done_ ? secondary_threads_.erase(iter++) : iter++;
+        auto cur = iter++;
+        if (!(*cur)->done_) {
+            released.splice(released.end(), secondary_threads_, cur);
+        }
     }
 
     CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > static_cast<CInt>(secondary_threads_.size())),    \
@@ -227,10 +233,13 @@ CIndex UThreadPool::dispatch(const CIndex origIndex) {
 CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
-    const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
+    // 已经被标记释放的辅助线程，不再计算在内
+    const int aliveSize = static_cast<int>(std::count_if(secondary_threads_.begin(), secondary_threads_.end(),
+                              [](const std::unique_ptr<UThreadSecondary>& st) { return CBool(st->done_); }));
+    const int leftSize = config_.max_thread_size_ - config_.default_thread_size_ - aliveSize;
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
-    CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (int i = 0; i < realSize; i++) {
         auto ptr = CGRAPH_MAKE_UNIQUE_COBJECT(UThreadSecondary)
         ptr->setThreadPoolInfo(&task_queue_, &priority_task_queue_, &config_);
@@ -242,6 +251,13 @@ CStatus UThreadPool::createSecondaryThread(const CInt size) {
 }
 
 
+CBool UThreadPool::hasSecondaryThread() {
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
+    return std::any_of(secondary_threads_.begin(), secondary_threads_.end(),
+                       [](const std::unique_ptr<UThreadSecondary>& st) { return CBool(st->done_); });
+}
+
+
 CVoid UThreadPool::monitor() {
     while (config_.monitor_enable_) {
         while (config_.monitor_enable_ && !is_init_) {
@@ -263,10 +279,15 @@ CVoid UThreadPool::monitor() {
             createSecondaryThread(1);
         }
 
+        // 等待线程退出的过程在锁外进行（先于 lock 声明）
+        std::list<std::unique_ptr<UThreadSecondary>> frozen;
         CGRAPH_LOCK_GUARD lock(st_mutex_);
         // 判断 secondary 线程是否需要退出
         for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-            (*iter)->freeze() ? secondary_threads_.erase(iter++) : iter++;
+            auto cur = iter++;
+            if ((*cur)->freeze()) {
+                frozen.splice(frozen.end(), secondary_threads_, cur);
+            }
         }
     }
 }
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 801f49a..a1bfb1b 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -197,6 +197,12 @@ protected:
      */
     CVoid monitor();
 
+    /**
+     * 判断是否还有可以执行任务的辅助线程
+     * @return
+     */
+    CBool hasSecondaryThread();
+
     CGRAPH_NO_ALLOWED_COPY(UThreadPool)
 
 private:
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 850b6f8..a948edc 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -45,7 +45,7 @@ auto UThreadPool::commitWithPriority(const FunctionType& func, int priority)
     std::packaged_task<ResultType()> task(func);
     std::future<ResultType> result(task.get_future());
 
-    if (secondary_threads_.empty()) {
+    if (!hasSecondaryThread()) {
         createSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
     }
 
-- 
2.43.0


From f9499815233fda8b26f0d3c688d21b563a7d35a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 25/58] fix: waking all threads is safe while helper threads
 are created or released

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 6653b80..27d9cd5 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -302,10 +302,14 @@ CSize UThreadPool::wakeupAllThread() {
             }
         }
 
-        for (const auto& st : secondary_threads_) {
-            if (st->wakeup()) {
-                ++size;
+        // 辅助线程的列表可能正在变动，此时不等待（辅助线程会自行从pool的队列中获取任务）
+        if (st_mutex_.try_lock()) {
+            for (const auto& st : secondary_threads_) {
+                if (st->wakeup()) {
+                    ++size;
+                }
             }
+            st_mutex_.unlock();
         }
         wakeup_mutex_.unlock();
     }
-- 
2.43.0


From 52a9a4198c89d37a624601bcb6a9ebb5371219a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 26/58] fix: commitWithTid can be instantiated

---
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index a948edc..cc5eb91 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -32,7 +32,7 @@ auto UThreadPool::commitWithTid(const FunctionType& func, CIndex tid, CBool enab
     std::packaged_task<ResultType()> task(std::move(func));
     std::future<ResultType> result(task.get_future());
 
-    execute(std::move(task), tid, enable, lockable);
+    executeWithTid(std::move(task), tid, enable, lockable);
     return result;
 }
 
-- 
2.43.0


From d9dad3776c4a9fa3d633eced7e02144b3e023178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 27/58] fix: the monitor thread stops when the pool is
 destroyed, so that the pool can be initialised again

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 41 +++++++++++++-----------
 src/UtilsCtrl/ThreadPool/UThreadPool.h   |  4 +++
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 27d9cd5..b53e668 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -23,11 +23,6 @@ UThreadPool::UThreadPool(const CBool autoInit, const UThreadPoolConfig& config)
 
 
 UThreadPool::~UThreadPool() {
-    this->config_.monitor_enable_ = false;    // 在析构的时候，才释放监控线程。先释放监控线程，再释放其他的线程
-    if (monitor_thread_.joinable()) {
-        monitor_thread_.join();
-    }
-
     destroy();
 }
 
@@ -52,10 +47,6 @@ CStatus UThreadPool::init() {
         CGRAPH_FUNCTION_END
     }
 
-    if (config_.monitor_enable_) {
-        // 默认不开启监控线程
-        monitor_thread_ = std::thread(&UThreadPool::monitor, this);
-    }
     thread_record_map_.clear();
     thread_record_map_[std::hash<std::thread::id>{}(std::this_thread::get_id())] = CGRAPH_MAIN_THREAD_ID;
     task_queue_.setup();
@@ -87,6 +78,11 @@ CStatus UThreadPool::init() {
     CGRAPH_FUNCTION_CHECK_STATUS
 
     is_init_ = true;
+    if (config_.monitor_enable_) {
+        // 默认不开启监控线程
+        monitor_running_ = true;
+        monitor_thread_ = std::thread(&UThreadPool::monitor, this);
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -146,6 +142,16 @@ CStatus UThreadPool::destroy() {
         CGRAPH_FUNCTION_END
     }
 
+    // 先释放监控线程，再释放其他的线程
+    {
+        CGRAPH_LOCK_GUARD lock(monitor_mutex_);
+        monitor_running_ = false;
+    }
+    monitor_cv_.notify_one();
+    if (monitor_thread_.joinable()) {
+        monitor_thread_.join();
+    }
+
     // primary 线程是普通指针，需要delete
     for (const auto& pt : primary_threads_) {
         CGRAPH_ASSERT_NOT_NULL(pt);
@@ -259,15 +265,14 @@ CBool UThreadPool::hasSecondaryThread() {
 
 
 CVoid UThreadPool::monitor() {
-    while (config_.monitor_enable_) {
-        while (config_.monitor_enable_ && !is_init_) {
-            // 如果没有init，则一直处于空跑状态
-            CGRAPH_SLEEP_SECOND(1)
-        }
-
-        auto span = config_.monitor_span_;
-        while (config_.monitor_enable_ && is_init_ && span--) {
-            CGRAPH_SLEEP_SECOND(1)    // 保证可以快速退出
+    while (true) {
+        {
+            // 等待一个监控周期。如果线程池被销毁，则立刻退出
+            CGRAPH_UNIQUE_LOCK lk(monitor_mutex_);
+            if (monitor_cv_.wait_for(lk, std::chrono::seconds(config_.monitor_span_),
+                                     [this] { return !monitor_running_; })) {
+                break;
+            }
         }
 
         // 如果 primary线程都在执行，则表示忙碌
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index a1bfb1b..9263bcb 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -16,6 +16,7 @@
 #include <thread>
 #include <atomic>
 #include <mutex>
+#include <condition_variable>
 #include <memory>
 #include <functional>
 
@@ -214,6 +215,9 @@ private:
     std::list<std::unique_ptr<UThreadSecondary>> secondary_threads_;                // 用于记录所有的辅助线程
     UThreadPoolConfig config_;                                                      // 线程池设置值
     std::thread monitor_thread_;                                                    // 监控线程
+    CBool monitor_running_ { false };                                               // 监控线程是否需要继续执行
+    std::mutex monitor_mutex_;                                                      // 监控线程退出的mutex信息
+    std::condition_variable monitor_cv_;                                            // 用于通知监控线程退出
     std::map<CSize, int> thread_record_map_;                                        // 线程记录的信息
     std::mutex st_mutex_;                                                           // 辅助线程发生变动的时候，加的mutex信息
     std::mutex wakeup_mutex_;                                                       // 防止wakeupAllThread并发重入
-- 
2.43.0


From 00ddf39d9f71c5078c25e575b8aab735f9ccd0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 28/58] fix: a detached connection is removed from its topic,
 nothing is published to it any more

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 733a1dc..8a25561 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -175,10 +175,12 @@ public:
         }
 
         auto& messageSet = result->second;
-        for (auto* msg : messageSet) {
+        for (auto iter = messageSet.begin(); iter != messageSet.end(); ++iter) {
+            auto* msg = *iter;
             if (connId == msg->getConnId()) {
-                CGRAPH_DELETE_PTR(msg);
+                messageSet.erase(iter);
                 conn_message_map_.erase(connId);
+                CGRAPH_DELETE_PTR(msg);
                 break;
             }
         }
-- 
2.43.0


From e6dce21441723a0caf2148d10c09fdbceac60585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 29/58] fix: dropping a topic also ends the connections bound
 to it

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 8a25561..79e71b8 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -252,6 +252,7 @@ public:
 
         auto& messageSet = result->second;
         for (auto* msg : messageSet) {
+            conn_message_map_.erase(msg->getConnId());
             CGRAPH_DELETE_PTR(msg)
         }
         pub_sub_message_map_.erase(innerTopic);
-- 
2.43.0


From e065012e354c6736cd5f39061bfffc7d3d4c1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 30/58] fix: messages are sent as the type their topic holds,
 so that classes with several bases keep their content

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 79e71b8..f249b94 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -120,7 +120,7 @@ public:
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        auto message = static_cast<GMessagePtr<T> >(result->second);
+        auto message = (GMessagePtr<TImpl>)(result->second);    // 与 topic 中实际存放的类型，保持一致
         CGRAPH_ASSERT_NOT_NULL(message);
 
         message->send(value, strategy);
@@ -210,7 +210,7 @@ public:
 
         auto& messageSet = result->second;
         for (auto msg : messageSet) {
-            msg->send(value, strategy);    // 给所有订阅的信息，一次发送消息
+            ((GMessagePtr<TImpl>)msg)->send(value, strategy);    // 给所有订阅的信息，一次发送消息
         }
         CGRAPH_FUNCTION_END
     }
-- 
2.43.0


From 90035780f41db6a063c0f87712f02c1495a734ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 31/58] fix: topics and connections may be removed, created and
 used concurrently

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 90 +++++++++++---------
 1 file changed, 49 insertions(+), 41 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index f249b94..2b86aa1 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -47,7 +47,7 @@ public:
         } else {
             // 创建一个 topic信息
             auto message = CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size);
-            send_recv_message_map_.insert(std::pair<const std::string&, GMessagePtr<T> >(innerTopic, GMessagePtr<T>(message)));
+            send_recv_message_map_.emplace(innerTopic, std::shared_ptr<GMessage<T>>((GMessagePtr<T>)message));
         }
 
         CGRAPH_FUNCTION_END
@@ -67,8 +67,7 @@ public:
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
-        CGRAPH_DELETE_PTR(result->second);
-        send_recv_message_map_.erase(result);
+        send_recv_message_map_.erase(result);    // 如果还有正在使用者，则等到其使用结束的时候，再释放
 
         CGRAPH_FUNCTION_END
     }
@@ -88,12 +87,17 @@ public:
                            CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        std::shared_ptr<GMessage<T>> cur = nullptr;
+        {
+            CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
+            auto result = send_recv_message_map_.find(innerTopic);
+            if (result == send_recv_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            cur = result->second;    // 收发的过程在锁外进行，期间 topic 可能会被删除
         }
 
-        auto message = (GMessagePtr<TImpl>)(result->second);
+        auto message = (GMessagePtr<TImpl>)(cur.get());
         CGRAPH_ASSERT_NOT_NULL(message);
 
         status = message->recv(value, timeout);
@@ -115,12 +119,17 @@ public:
                            GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         const std::string& innerTopic = internal::SEND_RECV_PREFIX + topic;
-        auto result = send_recv_message_map_.find(innerTopic);
-        if (result == send_recv_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        std::shared_ptr<GMessage<T>> cur = nullptr;
+        {
+            CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
+            auto result = send_recv_message_map_.find(innerTopic);
+            if (result == send_recv_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            cur = result->second;    // 收发的过程在锁外进行，期间 topic 可能会被删除
         }
 
-        auto message = (GMessagePtr<TImpl>)(result->second);    // 与 topic 中实际存放的类型，保持一致
+        auto message = (GMessagePtr<TImpl>)(cur.get());    // 与 topic 中实际存放的类型，保持一致
         CGRAPH_ASSERT_NOT_NULL(message);
 
         message->send(value, strategy);
@@ -141,19 +150,19 @@ public:
 
         CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
         CIndex connId = (++cur_conn_id_);
-        auto message = CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size, connId);
+        auto message = std::shared_ptr<GMessage<T>>((GMessagePtr<T>)CAllocator::safeMallocTemplateCObject<GMessage<TImpl>>(size, connId));
         auto result = pub_sub_message_map_.find(innerTopic);
         if (result != pub_sub_message_map_.end()) {
             // 如果之前有的话，则在后面添加一个
             auto& messageSet = result->second;
-            messageSet.insert((GMessagePtr<T>)message);
+            messageSet.insert(message);
         } else {
             // 如果是这个topic第一次被绑定，则创建一个对应的set信息
-            std::set<GMessagePtr<T>> messageSet {};
-            messageSet.insert((GMessagePtr<T>)message);
+            std::set<std::shared_ptr<GMessage<T>>> messageSet {};
+            messageSet.insert(message);
             pub_sub_message_map_[innerTopic] = messageSet;
         }
-        conn_message_map_[connId] = (GMessagePtr<T>)message;
+        conn_message_map_[connId] = message;
         return connId;
     }
 
@@ -176,11 +185,9 @@ public:
 
         auto& messageSet = result->second;
         for (auto iter = messageSet.begin(); iter != messageSet.end(); ++iter) {
-            auto* msg = *iter;
-            if (connId == msg->getConnId()) {
+            if (connId == (*iter)->getConnId()) {
                 messageSet.erase(iter);
                 conn_message_map_.erase(connId);
-                CGRAPH_DELETE_PTR(msg);
                 break;
             }
         }
@@ -203,14 +210,18 @@ public:
                           GMessagePushStrategy strategy) {
         CGRAPH_FUNCTION_BEGIN
         auto innerTopic = internal::PUB_SUB_PREFIX + topic;
-        auto result = pub_sub_message_map_.find(innerTopic);
-        if (result == pub_sub_message_map_.end()) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+        std::set<std::shared_ptr<GMessage<T>>> messageSet {};
+        {
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = pub_sub_message_map_.find(innerTopic);
+            if (result == pub_sub_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
+            }
+            messageSet = result->second;    // 发送的过程在锁外进行，期间可能会有 bind/detach
         }
 
-        auto& messageSet = result->second;
-        for (auto msg : messageSet) {
-            ((GMessagePtr<TImpl>)msg)->send(value, strategy);    // 给所有订阅的信息，一次发送消息
+        for (const auto& msg : messageSet) {
+            ((GMessagePtr<TImpl>)msg.get())->send(value, strategy);    // 给所有订阅的信息，一次发送消息
         }
         CGRAPH_FUNCTION_END
     }
@@ -227,11 +238,17 @@ public:
             c_enable_if_t<std::is_base_of<T, TImpl>::value, int> = 0>
     CStatus subTopicValue(CIndex connId, std::shared_ptr<TImpl>& value, CMSec timeout = CGRAPH_MAX_BLOCK_TTL) {
         CGRAPH_FUNCTION_BEGIN
-        if (conn_message_map_.end() == conn_message_map_.find(connId)) {
-            CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+        std::shared_ptr<GMessage<T>> cur = nullptr;
+        {
+            CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            auto result = conn_message_map_.find(connId);
+            if (result == conn_message_map_.end()) {
+                CGRAPH_RETURN_ERROR_STATUS("no find [" + std::to_string(connId) + "] connect");
+            }
+            cur = result->second;
         }
 
-        auto message = (GMessagePtr<TImpl>)(conn_message_map_[connId]);
+        auto message = (GMessagePtr<TImpl>)(cur.get());
         status = message->recv(value, timeout);
         CGRAPH_FUNCTION_END
     }
@@ -251,9 +268,8 @@ public:
         }
 
         auto& messageSet = result->second;
-        for (auto* msg : messageSet) {
+        for (const auto& msg : messageSet) {
             conn_message_map_.erase(msg->getConnId());
-            CGRAPH_DELETE_PTR(msg)
         }
         pub_sub_message_map_.erase(innerTopic);
         CGRAPH_FUNCTION_END
@@ -267,19 +283,11 @@ public:
         CGRAPH_FUNCTION_BEGIN
         {
             CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
-            for (auto& cur : send_recv_message_map_) {
-                CGRAPH_DELETE_PTR(cur.second)
-            }
             send_recv_message_map_.clear();
         }
 
         {
             CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
-            for (auto& cur : pub_sub_message_map_) {
-                for (auto* iter : cur.second) {
-                    CGRAPH_DELETE_PTR(iter);
-                }
-            }
             pub_sub_message_map_.clear();
             conn_message_map_.clear();
             cur_conn_id_ = 0;
@@ -307,9 +315,9 @@ protected:
     }
 
 private:
-    std::unordered_map<std::string, GMessagePtr<T>> send_recv_message_map_;    // 记录 topic 和 message queue 信息
-    std::unordered_map<std::string, std::set<GMessagePtr<T>>> pub_sub_message_map_;    // 记录 pub和sub的 message 的信息
-    std::unordered_map<CIndex, GMessagePtr<T>> conn_message_map_;    // 用于根据 index反推message信息
+    std::unordered_map<std::string, std::shared_ptr<GMessage<T>>> send_recv_message_map_;    // 记录 topic 和 message queue 信息
+    std::unordered_map<std::string, std::set<std::shared_ptr<GMessage<T>>>> pub_sub_message_map_;    // 记录 pub和sub的 message 的信息
+    std::unordered_map<CIndex, std::shared_ptr<GMessage<T>>> conn_message_map_;    // 用于根据 index反推message信息
     CIndex cur_conn_id_ = 0;    // 记录当前的conn信息
 
     std::mutex pub_sub_mutex_;
-- 
2.43.0


From 89870d70627b485e08734205ac2a0ba26412d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 32/58] fix: removing a topic or detaching a connection
 releases the senders and receivers waiting on it

---
 src/GraphCtrl/GraphMessage/GMessage.h         |  8 ++++++
 src/GraphCtrl/GraphMessage/GMessageManager.h  |  9 +++++++
 .../ThreadPool/Queue/UAtomicRingBufferQueue.h | 26 +++++++++++++++++--
 3 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessage.h b/src/GraphCtrl/GraphMessage/GMessage.h
index ecb40d8..ccf7bc6 100644
--- a/src/GraphCtrl/GraphMessage/GMessage.h
+++ b/src/GraphCtrl/GraphMessage/GMessage.h
@@ -59,6 +59,14 @@ public:
         return queue_.waitPopWithTimeout(value, timeout);
     }
 
+    /**
+     * 结束使用，唤醒所有正在等待收发的地方
+     * @return
+     */
+    virtual CVoid close() {
+        queue_.close();
+    }
+
     /**
      * 获取容量大小
      * @return
diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 2b86aa1..f3378f4 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -67,6 +67,7 @@ public:
             CGRAPH_RETURN_ERROR_STATUS("no find [" + topic + "] topic");
         }
 
+        result->second->close();
         send_recv_message_map_.erase(result);    // 如果还有正在使用者，则等到其使用结束的时候，再释放
 
         CGRAPH_FUNCTION_END
@@ -186,6 +187,7 @@ public:
         auto& messageSet = result->second;
         for (auto iter = messageSet.begin(); iter != messageSet.end(); ++iter) {
             if (connId == (*iter)->getConnId()) {
+                (*iter)->close();
                 messageSet.erase(iter);
                 conn_message_map_.erase(connId);
                 break;
@@ -269,6 +271,7 @@ public:
 
         auto& messageSet = result->second;
         for (const auto& msg : messageSet) {
+            msg->close();
             conn_message_map_.erase(msg->getConnId());
         }
         pub_sub_message_map_.erase(innerTopic);
@@ -283,11 +286,17 @@ public:
         CGRAPH_FUNCTION_BEGIN
         {
             CGRAPH_LOCK_GUARD lk(send_recv_mutex_);
+            for (const auto& cur : send_recv_message_map_) {
+                cur.second->close();
+            }
             send_recv_message_map_.clear();
         }
 
         {
             CGRAPH_LOCK_GUARD lk(pub_sub_mutex_);
+            for (const auto& cur : conn_message_map_) {
+                cur.second->close();
+            }
             pub_sub_message_map_.clear();
             conn_message_map_.clear();
             cur_conn_id_ = 0;
diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index b4199b7..6908245 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -66,7 +66,7 @@ public:
             if (isFull()) {
                 switch (strategy) {
                     case URingBufferPushStrategy::WAIT:
-                        push_cv_.wait(lk, [this] { return !isFull(); });
+                        push_cv_.wait(lk, [this] { return !isFull() || closed_; });
                         break;
                     case URingBufferPushStrategy::REPLACE:
                         head_ = (head_ + 1) % slotSize();
@@ -76,6 +76,10 @@ public:
                 }
             }
 
+            if (closed_) {
+                return;    // 已经关闭，不再写入
+            }
+
             ring_buffer_queue_[tail_] = value;
             tail_ = (tail_ + 1) % slotSize();
         }
@@ -96,11 +100,15 @@ public:
             CGRAPH_UNIQUE_LOCK lk(mutex_);
             if (isEmpty()
                 && !pop_cv_.wait_for(lk, std::chrono::milliseconds(timeout),
-                                     [this] { return !isEmpty(); })) {
+                                     [this] { return !isEmpty() || closed_; })) {
                 // 如果timeout的时间内，等不到消息，则返回错误信息
                 CGRAPH_RETURN_ERROR_STATUS("receive message timeout.")
             }
 
+            if (closed_) {
+                CGRAPH_RETURN_ERROR_STATUS("message queue is closed.")
+            }
+
             value = std::move(ring_buffer_queue_[head_]);
             head_ = (head_ + 1) % slotSize();
         }
@@ -125,6 +133,19 @@ public:
         CGRAPH_FUNCTION_END
     }
 
+    /**
+     * 关闭队列，不再收发信息，并且唤醒所有正在等待的地方
+     * @return
+     */
+    CVoid close() {
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);
+            closed_ = true;
+        }
+        push_cv_.notify_all();
+        pop_cv_.notify_all();
+    }
+
 protected:
     /**
      * 当前队列是否为满
@@ -157,6 +178,7 @@ private:
     CUInt head_;                                                    // 头结点位置
     CUInt tail_;                                                    // 尾结点位置
     CUInt capacity_;                                                // 环形缓冲的容量大小
+    CBool closed_ = false;                                          // 是否已经关闭
 
     std::condition_variable push_cv_;                               // 写入的条件变量。为了保持语义完整，也考虑今后多入多出的可能性，不使用 父类中的 cv_了
     std::condition_variable pop_cv_;                                // 读取的条件变量
-- 
2.43.0


From 47f0db97a18616ae68537e23240383de2714a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 33/58] fix: resuming never loses the wakeup of a suspended
 element

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 52f41d4..314baf4 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -74,6 +74,10 @@ CStatus GElementRepository::pushAllState(const GElementState& state) {
         cur->cur_state_.store(state, std::memory_order_release);
         if (GElementState::SUSPEND != state) {
             // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
+            {
+                // 加锁，防止在判断状态和进入等待之间，丢失通知
+                CGRAPH_LOCK_GUARD lk(cur->suspend_locker_.mtx_);
+            }
             cur->suspend_locker_.cv_.notify_one();
         }
     }
-- 
2.43.0


From f4c31f7722a71d29d6bf60762a7326feb2d0efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 34/58] fix: an element that starts while the pipeline is
 suspended waits for the resume instead of being skipped

---
 src/GraphCtrl/GraphElement/GElement.cpp | 14 +++++++++++++-
 src/GraphCtrl/GraphElement/GElement.h   |  6 ++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index cb35007..ac96bf1 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -239,7 +239,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                     is_prepared_ = true;
                 }
 
-                for (CSize i = 0; i < this->loop_ && status.isOK() && GElementState::NORMAL == this->getCurState(); i++) {
+                for (CSize i = 0; i < this->loop_ && status.isOK() && isRunnable(); i++) {
                     /** 执行带切面的run方法 */
                     status += doAspect(internal::GAspectType::BEGIN_RUN);
                     CGRAPH_FUNCTION_CHECK_STATUS
@@ -450,6 +450,18 @@ CVoid GElement::checkSuspend() {
 }
 
 
+CBool GElement::isRunnable() {
+    auto state = getCurState();
+    while (GElementState::SUSPEND == state) {
+        // 在开始执行之前被暂停的话，等待恢复之后，再继续执行
+        checkSuspend();
+        state = getCurState();
+    }
+
+    return GElementState::NORMAL == state;
+}
+
+
 CBool GElement::isGGroup() const {
     // 按位与 GROUP有值，表示是 GROUP的逻辑
     return (static_cast<long>(element_type_) & static_cast<long>(GElementType::GROUP)) > 0;
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 1741d1a..a96105b 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -387,6 +387,12 @@ private:
      */
     CVoid checkSuspend();
 
+    /**
+     * 判断当前是否可以（继续）执行。如果处于暂停状态，则等待恢复
+     * @return
+     */
+    CBool isRunnable();
+
     /**
      * 判断当前元素，是否可以线性执行。默认返回true
      * @return
-- 
2.43.0


From 6beaf773777010dbe150650ddeff548a06693f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 35/58] fix: a cancelled run stays cancelled and cancel reaches
 every element at once

cancel() marked the elements one after another, so a later element could
still start although one it depends on was already skipped; suspend() or
resume() issued afterwards set the remaining elements back to normal, and
two threads switching states at once could leave elements suspended.
---
 src/GraphCtrl/GraphElement/GElement.cpp       |  3 ++-
 src/GraphCtrl/GraphElement/GElement.h         |  1 +
 .../GraphElement/GElementRepository.cpp       | 24 +++++++++++++++----
 .../GraphElement/GElementRepository.h         | 11 ++++++++-
 src/GraphCtrl/GraphPipeline/GPipeline.cpp     |  6 ++---
 5 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index ac96bf1..a3f0366 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -458,7 +458,8 @@ CBool GElement::isRunnable() {
         state = getCurState();
     }
 
-    return GElementState::NORMAL == state;
+    return GElementState::NORMAL == state
+        && !(pipeline_state_ && GElementState::CANCEL == pipeline_state_->load(std::memory_order_acquire));
 }
 
 
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index a96105b..531c4d3 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -450,6 +450,7 @@ private:
     CBool is_init_ { false };                                                 // 判断是否init
     GElementType element_type_ { GElementType::ELEMENT };                     // 用于区分element 内部类型
     std::atomic<GElementState> cur_state_ { GElementState::NORMAL };       // 当前执行状态
+    const std::atomic<GElementState>* pipeline_state_ { nullptr };         // 所在 pipeline 的状态
     internal::GElementShape shape_ { internal::GElementShape::NORMAL };       // 元素位置类型
 
     /** 配置相关信息 */
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 314baf4..0715b6e 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -66,10 +66,16 @@ CStatus GElementRepository::reset() {
 
 CStatus GElementRepository::pushAllState(const GElementState& state) {
     CGRAPH_FUNCTION_BEGIN
+    std::lock_guard<std::recursive_mutex> stateLk(state_mtx_);
     if (cur_state_ == state) {
         return status;    // 避免重复赋值
     }
 
+    if (GElementState::CANCEL == state) {
+        // 对所有 element 同时生效，防止前面的 element 被取消了，而后面的 element 还继续执行
+        cur_state_ = state;
+    }
+
     for (auto& cur : elements_) {
         cur->cur_state_.store(state, std::memory_order_release);
         if (GElementState::SUSPEND != state) {
@@ -86,6 +92,18 @@ CStatus GElementRepository::pushAllState(const GElementState& state) {
 }
 
 
+CStatus GElementRepository::switchState(const GElementState& state) {
+    CGRAPH_FUNCTION_BEGIN
+    std::lock_guard<std::recursive_mutex> stateLk(state_mtx_);
+    if (isCancelState()) {
+        return status;    // 已经取消的流程，不可以被暂停，也不可以被恢复
+    }
+
+    status = pushAllState(state);
+    CGRAPH_FUNCTION_END
+}
+
+
 CVoid GElementRepository::fetchAll(GElementManagerCPtr em) {
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(em)
     for (GElementPtr cur : em->manager_elements_) {
@@ -112,11 +130,6 @@ CVoid GElementRepository::fetch(GElementPtr element) {
 
 
 CBool GElementRepository::isCancelState() const {
-    /**
-     * 因为每次执行的时候，都需要判断一下这个状态是否为 cancel
-     * 且理论上不会出现多线程问题
-     * 故这一层的 cur_state_ 就不设置为atomic类型的了
-     */
     return GElementState::CANCEL == cur_state_;
 }
 
@@ -135,6 +148,7 @@ CStatus GElementRepository::init() {
         status = element->checkSuitable();
         CGRAPH_FUNCTION_CHECK_STATUS
         element->updateAspectInfo();
+        element->pipeline_state_ = &cur_state_;
 
         if (element->isAsync()) {
             async_elements_.emplace(element);
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index acae35f..567e08a 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -60,6 +60,14 @@ private:
      */
     CStatus pushAllState(const GElementState& state);
 
+    /**
+     * 执行过程中，切换所有内部的element状态
+     * @param state
+     * @return
+     * @notice 一旦进入 cancel 状态，直到下一次执行之前，不可以被切换为其他状态
+     */
+    CStatus switchState(const GElementState& state);
+
     /**
      * 将 element manager 中的信息，同步到本地
      * @param em
@@ -91,7 +99,8 @@ private:
 
 private:
     GElementPtrSet elements_ {};                                    // 用于记录所有的element信息
-    GElementState cur_state_ { GElementState::NORMAL };             // 当前状态信息
+    std::atomic<GElementState> cur_state_ { GElementState::NORMAL };    // 当前状态信息
+    std::recursive_mutex state_mtx_ {};                             // 保证多个线程同时切换状态时，状态的一致性
     GElementPtrSet async_elements_ {};                              // 所有异步执行的逻辑，到后来一次性统一获取执行结果信息
     std::vector<GSome *> some_elements_ {};                         // 所有的 some，用于等待其中没有执行完成的逻辑
 
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index ae074b1..8f48cc5 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -183,20 +183,20 @@ std::future<CStatus> GPipeline::asyncProcess(CSize runTimes, std::launch policy)
 
 CStatus GPipeline::cancel() {
     CGRAPH_ASSERT_INIT(true)
-    return repository_.pushAllState(GElementState::CANCEL);
+    return repository_.switchState(GElementState::CANCEL);
 }
 
 
 CStatus GPipeline::suspend() {
     CGRAPH_ASSERT_INIT(true)
-    return repository_.pushAllState(GElementState::SUSPEND);
+    return repository_.switchState(GElementState::SUSPEND);
 }
 
 
 CStatus GPipeline::resume() {
     // 直接恢复正常状态好了
     CGRAPH_ASSERT_INIT(true)
-    return repository_.pushAllState(GElementState::NORMAL);
+    return repository_.switchState(GElementState::NORMAL);
 }
 
 
-- 
2.43.0


From 03713afbd26b88e3bcea3e91a2e43b3b157b604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 36/58] fix: process() keeps a cancel or suspend that lands
 between two runs

every run of process() put all elements back to normal, so a cancel or a
suspend issued after the last element of a run was silently lost.
---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 12 +++++++++++-
 src/GraphCtrl/GraphPipeline/GPipeline.h   |  6 ++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 8f48cc5..137bfc1 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -68,6 +68,15 @@ CStatus GPipeline::run() {
      * 6. 将所有的 GParam 复原
      */
     status += repository_.setup();
+    CGRAPH_FUNCTION_CHECK_STATUS
+
+    status = innerRun();
+    CGRAPH_FUNCTION_END
+}
+
+
+CStatus GPipeline::innerRun() {
+    CGRAPH_FUNCTION_BEGIN
     status += param_manager_->setup();
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -118,8 +127,9 @@ CStatus GPipeline::process(CSize runTimes) {
          * 1. 执行轮数（runTimes）没有结束
          * 2. 执行结果正常
          * 3. 没有进入取消状态
+         * 状态信息在 init 的时候已经设置好了。这里不再重置，防止两轮执行之间的 cancel 和 suspend 丢失
          */
-        status += run();
+        status += innerRun();
     }
 
     status += destroy();
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index 494b9c2..d6f04e8 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -426,6 +426,12 @@ private:
      */
     CStatus initEnv();
 
+    /**
+     * 执行一轮流程，不包含状态的重置
+     * @return
+     */
+    CStatus innerRun();
+
     /**
      * 内部真实一个 element 信息
      * @param element
-- 
2.43.0


From c6c5e8d76aa3d17d690c590177340bee1cbe80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 37/58] fix: an exception of an element the pipeline holds for
 is returned as the run status

the result of a timed-out element that later throws was fetched outside
any handler, so the exception left run() itself.
---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 0715b6e..1c1d6e9 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -51,7 +51,12 @@ CStatus GElementRepository::reset() {
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
-            status += cur->getAsyncResult();
+            try {
+                status += cur->getAsyncResult();
+            } catch (const CException& ex) {
+                (void)cur->doAspect(internal::GAspectType::ENTER_CRASHED);
+                status += cur->crashed(ex);
+            }
         }
 
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
-- 
2.43.0


From 130144b655922611d4d36c78c68e3e533c14c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 38/58] fix: several fences may wait for the same element

the result of a timed-out element was a plain future, so two fences
fetching it at once shared and emptied it under each other's feet, and a
result nobody fetched was reported by a later run.
---
 src/GraphCtrl/GraphElement/GElement.cpp           | 9 ++++++---
 src/GraphCtrl/GraphElement/GElement.h             | 2 +-
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 3 ++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index a3f0366..ac53fd0 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -555,7 +555,9 @@ CStatus GElement::asyncRun() {
 
     const auto& futStatus = async_result_.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
-        status = getAsyncResult();
+        // 未超时的情况，结果已经在这里获取，后续不需要再次等待
+        const auto result = std::move(async_result_);
+        status = result.get();
     } else {
         doAspect(internal::GAspectType::ENTER_TIMEOUT);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION( GElementTimeoutStrategy::AS_ERROR == timeout_strategy_,    \
@@ -569,8 +571,9 @@ CStatus GElement::asyncRun() {
 
 CStatus GElement::getAsyncResult() {
     CGRAPH_FUNCTION_BEGIN
-    if (async_result_.valid()) {
-        status = async_result_.get();    // 这里的get和valid方法，都是线程安全的
+    const auto result = async_result_;    // 可能同时被多个 fence 等待，故拷贝一份之后再获取
+    if (result.valid()) {
+        status = result.get();
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 531c4d3..26d1c86 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -476,7 +476,7 @@ private:
     std::vector<GElement *> children_ {};                                     // 子节点，适用于group类型
 
     /** 异步执行相关信息 */
-    std::future<CStatus> async_result_;                                       // 用于记录当前节点的异步执行情况
+    std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
     friend class GNode;
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 1c1d6e9..e279d19 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -59,7 +59,8 @@ CStatus GElementRepository::reset() {
             }
         }
 
-        // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
+        // 无论如何，写回非 timeout状态，并且清空结果信息，确保不会迭代到下一轮
+        cur->async_result_ = {};
         if (cur->isTimeout()) {
             cur->cur_state_.store(GElementState::NORMAL, std::memory_order_release);
         }
-- 
2.43.0


From 75334855f8d03521f001de2687a3a7c4310493c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 39/58] fix: max parallel size and trim work when a level is
 set after the registration

---
 src/GraphCtrl/GraphElement/GElementManager.cpp       | 12 +++++++++---
 src/GraphCtrl/GraphElement/GElementManager.h         |  7 +++++++
 .../GraphElement/GGroup/GRegion/GRegion.cpp          |  2 +-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 3bb3656..3724464 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -27,9 +27,7 @@ CStatus GElementManager::init() {
         CGRAPH_ASSERT_NOT_NULL(element)
     }
 
-    // level 信息，可能在加入之后又被修改过，故在这里重新排序
-    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
-
+    resort();
     status = initEngine();
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -132,7 +130,14 @@ GElementManagerPtr GElementManager::setThreadPool(UThreadPoolPtr ptr) {
 }
 
 
+CVoid GElementManager::resort() {
+    // level 信息，可能在加入之后又被修改过，故在使用之前重新排序
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
+}
+
+
 CSize GElementManager::calcMaxParaSize() {
+    resort();
     CGRAPH_THROW_EXCEPTION_BY_CONDITION(!GMaxParaOptimizer::match(manager_elements_),
                                         "cannot calculate max parallel size within groups")
     return GMaxParaOptimizer::getMaxParaSize(manager_elements_);
@@ -173,6 +178,7 @@ CBool GElementManager::checkSerializable() {
 
 
 CSize GElementManager::trim() {
+    resort();
     return GTrimOptimizer::trim(manager_elements_);
 }
 
diff --git a/src/GraphCtrl/GraphElement/GElementManager.h b/src/GraphCtrl/GraphElement/GElementManager.h
index 1ded97a..0c38881 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.h
+++ b/src/GraphCtrl/GraphElement/GElementManager.h
@@ -98,6 +98,13 @@ protected:
      */
     CStatus process(const GSortedGElementPtrSet& elements);
 
+private:
+    /**
+     * 根据当前的 level信息，将element重新排序
+     * @return
+     */
+    CVoid resort();
+
 private:
     GSortedGElementPtrSet manager_elements_;                    // 保存节点信息的内容
     GEnginePtr engine_ { nullptr };                             // 执行引擎
diff --git a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
index 32a4a30..3f15a94 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GRegion/GRegion.cpp
@@ -118,7 +118,7 @@ CSize GRegion::trim() {
     CGRAPH_ASSERT_INIT_THROW_ERROR(false)
     CSize result = 0;
     if (manager_) {
-        result = GTrimOptimizer::trim(manager_->manager_elements_);
+        result = manager_->trim();
     }
     return result;
 }
-- 
2.43.0


From a47a30afe5d4d137c958a32e7b9269461b911c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 40/58] fix: a serial pipeline runs a chain whose elements are
 bound to threads

---
 .../_GEngine/GDynamicEngine/GDynamicEngine.cpp   | 16 +++++++++++++++-
 .../_GEngine/GDynamicEngine/GDynamicEngine.h     |  6 ++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index f3191d1..e7571c1 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -84,11 +84,13 @@ CVoid GDynamicEngine::mark(const GSortedGElementPtrSet& elements) {
 
 CVoid GDynamicEngine::analysisDagType() {
     if (total_element_arr_.empty()
-       || (front_element_arr_.size() == 1 && total_element_arr_.size() - 1 == linked_size_)) {
+       || (front_element_arr_.size() == 1
+           && (total_element_arr_.size() - 1 == linked_size_ || isSerialChain()))) {
         /**
          * 如果所有的信息中，只有一个是非linkable。则说明只有最后的那个是的，且只有一个开头
          * 故，这里将其认定为一条 lineal 的情况
          * ps: 只有一个或者没有 element的情况，也会被算到 ALL_SERIAL 中去
+         * ps: 没有线程可用的情况下（makeSerial），绑定信息无意义，只要是链式的，就依次执行
          */
         dag_type_ = internal::GEngineDagType::ALL_SERIAL;
     } else if (total_element_arr_.size() == total_end_size_ && front_element_arr_.size() == total_end_size_) {
@@ -100,6 +102,18 @@ CVoid GDynamicEngine::analysisDagType() {
 }
 
 
+CBool GDynamicEngine::isSerialChain() const {
+    if (!thread_pool_) {
+        return false;
+    }
+
+    const auto& config = thread_pool_->getConfig();
+    return config.default_thread_size_ + config.secondary_thread_size_ <= 0
+           && std::all_of(total_element_arr_.begin(), total_element_arr_.end(),
+                          [](GElementPtr ptr) { return ptr->run_before_.size() <= 1; });
+}
+
+
 CVoid GDynamicEngine::analysisParallelMatrix() {
     parallel_element_matrix_.clear();
     const auto& config = thread_pool_ ? thread_pool_->getConfig() : UThreadPoolConfig();
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index cf432f9..5a12829 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -36,6 +36,12 @@ protected:
      */
     CVoid analysisDagType();
 
+    /**
+     * 判断是否为没有线程可用的链式结构
+     * @return
+     */
+    CBool isSerialChain() const;
+
     /**
      * 解析纯并行的情况下，元素矩阵
      * @return
-- 
2.43.0


From 6e0fd3c242be6312e0e516da77e896334d778291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 41/58] fix: a parallel condition of one element needs no
 thread, as its serial check promises

---
 .../GraphElement/GGroup/GCondition/GMultiCondition.inl         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
index 3c32bbd..8f2f28d 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
+++ b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
@@ -33,7 +33,8 @@ CStatus GMultiCondition<type>::run() {
             status = serialRun();
             break;
         case GMultiConditionType::PARALLEL:
-            status = parallelRun();
+            // 仅有一个元素的情况，不需要并发，直接在当前线程执行（参考 isSerializable 的判断方式）
+            status = this->children_.size() > 1 ? parallelRun() : serialRun();
             break;
         default:
             CGRAPH_RETURN_ERROR_STATUS("unknown multi condition type")
-- 
2.43.0


From 1dcad375c2b13bc6f1508029c535f85c9017d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 42/58] fix: a group with an asynchronous child is not
 serializable

---
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index a4deac3..ba7820a 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -94,7 +94,7 @@ CBool GGroup::isSerializable() const {
      */
     return std::all_of(children_.begin(), children_.end(),
                        [](GElementPtr element) {
-        return element->isSerializable();
+        return element->isSerializable() && !element->isAsync();
     });
 }
 
-- 
2.43.0


From 20336c06fe004544e63f251eee59c1b09995f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 43/58] fix: stored parameters keep their class and back-trace
 flag

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp     | 3 ++-
 src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index edc8813..c43464e 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -39,7 +39,8 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(_GStageStorage,
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GParamStorage,
     UREFL_DECLARE_FIELD(_GParamStorage, key_, 1),
-    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2)
+    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2),
+    UREFL_DECLARE_FIELD(_GParamStorage, backtrace_, 3)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPassedParamStorage,
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
index 75d6e02..74a92c8 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
@@ -67,6 +67,7 @@ struct _GParamStorage : public _GStorageBasic {
     explicit _GParamStorage(const std::string& key, CBool backtrace, const std::string& clz) {
         key_ = key;
         backtrace_ = backtrace;
+        clz_name_ = clz;
     }
 
     std::string key_ {};
-- 
2.43.0


From 4c62eaba09c8edef8e93264797241cefb53def11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 44/58] fix: every thread pool setting is stored

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index c43464e..4a1de65 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -86,7 +86,9 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(UThreadPoolConfig,
     UREFL_DECLARE_FIELD(UThreadPoolConfig, secondary_thread_priority_, 16),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, bind_cpu_enable_, 17),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, batch_task_enable_, 18),
-    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19)
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, pipeline_wait_busy_epoch_, 20),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, deliver_running_primary_thread_enable_, 21)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPipelineStorage,
-- 
2.43.0


From 7833c7760b1322a101d335c44ca5ad8bba2cd5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 45/58] fix: loaded group children are owned and can be saved
 again

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 4a1de65..8300e22 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -257,6 +257,8 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
         auto element = dynamic_cast<GElementPtr>(GStorageFactory::createByType(cur.clz_name_));
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!element,
                                                 cur.name_ + " element do not register, please check")
+        // 无论是否属于某个 group，都需要被 pipeline 管理（包括加载失败的情况），并且可以被再次保存
+        pipeline->repository_.insert(element);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(element->element_type_ != cur.element_type_,
                                                 cur.name_ + " check type failed when load");
         status = cur.recover(element);
-- 
2.43.0


From e60f13af7ea77a540abfbfdb7aa7b267c394d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 46/58] fix: perf always restores the pipeline and its aspects

---
 src/GraphCtrl/GraphElement/GElement.cpp      |  1 -
 src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp | 24 +++++++++++---------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index ac53fd0..e546027 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -531,7 +531,6 @@ CBool GElement::isSerializable() const {
 
 CStatus GElement::popLastAspect() {
     CGRAPH_FUNCTION_BEGIN
-    CGRAPH_ASSERT_INIT(false)
     CGRAPH_ASSERT_NOT_NULL(aspect_manager_)
 
     status = aspect_manager_->popLast();
diff --git a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
index d670a1a..3531203 100644
--- a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
@@ -20,18 +20,18 @@ CStatus GPerf::perf(GPipelinePtr pipeline, std::ostream& oss) {
     status = inject(pipeline);
     CGRAPH_FUNCTION_CHECK_STATUS
 
-    status = pipeline->process();
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = markLongestPath(pipeline);
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = pipeline->dump(oss);
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = recover(pipeline);
-    CGRAPH_FUNCTION_CHECK_STATUS
+    try {
+        status = pipeline->process();
+        if (likely(status.isOK())) {
+            status += markLongestPath(pipeline);
+            status += pipeline->dump(oss);
+        }
+    } catch (const CException&) {
+        recover(pipeline);    // 无论执行结果如何，都需要将 pipeline 恢复到原来的样子
+        throw;
+    }
 
+    status += recover(pipeline);
     CGRAPH_FUNCTION_END
 }
 
@@ -40,6 +40,8 @@ CStatus GPerf::inject(GPipelinePtr pipeline) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(pipeline)
 
+    // 直接放入 group 中的 element，可能还没有被记录
+    pipeline->repository_.fetchAll(pipeline->element_manager_);
     const CFMSec now = CGRAPH_GET_CURRENT_ACCURATE_MS();
     for (auto* cur : pipeline->repository_.elements_) {
         /**
-- 
2.43.0


From 4cf792fd43f5c804c45863ce5f6a23728de9707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:43 +0000
Subject: [PATCH 47/58] fix: quotes and backslashes in names are escaped when
 dumped

---
 src/GraphCtrl/GraphElement/GElement.cpp      | 12 +++++++++++-
 src/GraphCtrl/GraphElement/GElement.h        |  7 +++++++
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index e546027..e30475a 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -418,7 +418,17 @@ CVoid GElement::dumpElementHeader(std::ostream& oss) const {
     if (this->name_.empty()) {
         oss << 'p' << this;    // 如果没有名字，则通过当前指针位置来代替
     } else {
-        oss << this->name_;
+        dumpName(oss);
+    }
+}
+
+
+CVoid GElement::dumpName(std::ostream& oss) const {
+    for (const char cur : name_) {
+        if ('"' == cur || '\\' == cur) {
+            oss << '\\';    // 防止名称中的特殊字符，破坏 dump 信息的格式
+        }
+        oss << cur;
     }
 }
 
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 26d1c86..3833c35 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -374,6 +374,13 @@ private:
      */
     CVoid dumpElementHeader(std::ostream& oss) const;
 
+    /**
+     * graphviz dump 当前element的名称，对其中的特殊字符做转义
+     * @param oss
+     * @return
+     */
+    CVoid dumpName(std::ostream& oss) const;
+
     /**
      * graphviz dump perf逻辑
      * @param oss
diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index ba7820a..13fd169 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -69,7 +69,7 @@ CVoid GGroup::dumpGroupLabelBegin(std::ostream& oss) {
     if (name_.empty()) {
         oss << 'p' << this;
     } else {
-        oss << name_;
+        dumpName(oss);
     }
 
     if (this->loop_ > 1) {
-- 
2.43.0


From 097d20bd041cd5e07059cd11f116a84e1603dcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 48/58] fix: a manager records a pipeline once and hands it out
 only when initialised

---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index d4f7a6b..b8bbcdf 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -72,6 +72,8 @@ CStatus GPipelineManager::add(GPipelinePtr ptr) {
 
     {
         CGRAPH_LOCK_GUARD lk(mutex_);
+        // 同一个 pipeline 只能被记录一次，否则会同时分配给多个使用者
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(find(ptr), "this pipeline is added duplicate")
         free_list_.push_back(ptr);
     }
 
@@ -144,8 +146,8 @@ GPipelineManager::~GPipelineManager() {
 GPipelinePtr GPipelineManager::fetch() {
     GPipelinePtr pipeline = nullptr;
     CGRAPH_LOCK_GUARD lk(mutex_);
-    if (free_list_.empty()) {
-        // 如果没有 free的了，则直接返回空了
+    if (!is_init_ || free_list_.empty()) {
+        // 如果尚未初始化，或者没有 free的了，则直接返回空了
         return pipeline;
     }
 
-- 
2.43.0


From 4fb069a35200409e28d6c8310cb79e8a609f21b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 49/58] fix: a singleton element is destroyed with its last
 user

---
 .../GAdapter/GSingleton/GSingleton.h          |  9 +++-
 .../GAdapter/GSingleton/GSingleton.inl        | 45 ++++++++++++++-----
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h
index ae08b3a..b8570af 100644
--- a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h
+++ b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.h
@@ -9,6 +9,8 @@
 #ifndef CGRAPH_GSINGLETON_H
 #define CGRAPH_GSINGLETON_H
 
+#include <mutex>
+
 #include "../GAdapter.h"
 
 CGRAPH_NAMESPACE_BEGIN
@@ -18,6 +20,8 @@ class GSingleton : public GAdapter {
 private:
     explicit GSingleton();
 
+    ~GSingleton() override;
+
     CStatus init() final;
     CStatus run() final;
     CStatus destroy() final;
@@ -39,7 +43,10 @@ private:
 
 private:
     static USingleton<T> s_singleton_;                    // 单例
-    static std::atomic<CBool> s_is_init_;                 // 标志是否被初始化过
+    static std::mutex s_mutex_;                           // 保护以下信息
+    static CBool s_is_init_;                              // 标志是否被初始化过
+    static CSize s_user_num_;                             // 正在使用单例的位置的个数
+    CBool is_using_ = false;                              // 当前位置，是否正在使用单例
 
     friend class GPipeline;
 };
diff --git a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
index 7e46fdf..a8fb37f 100644
--- a/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
+++ b/src/GraphCtrl/GraphElement/GAdapter/GSingleton/GSingleton.inl
@@ -17,7 +17,13 @@ template <typename T>
 USingleton<T> GSingleton<T>::s_singleton_;
 
 template <typename T>
-std::atomic<CBool> GSingleton<T>::s_is_init_(false);
+std::mutex GSingleton<T>::s_mutex_;
+
+template <typename T>
+CBool GSingleton<T>::s_is_init_ = false;
+
+template <typename T>
+CSize GSingleton<T>::s_user_num_ = 0;
 
 
 template <typename T>
@@ -27,21 +33,33 @@ GSingleton<T>::GSingleton() {
 }
 
 
+template <typename T>
+GSingleton<T>::~GSingleton() {
+    if (is_using_) {
+        // 未执行 destroy 就被释放的情况
+        CGRAPH_LOCK_GUARD lk(s_mutex_);
+        s_user_num_--;
+    }
+}
+
+
 template <typename T>
 CStatus GSingleton<T>::init() {
     CGRAPH_FUNCTION_BEGIN
+    CGRAPH_LOCK_GUARD lk(s_mutex_);
     /* 确保仅 GSingletonNode 类型内容，init一次 */
-    if (s_is_init_) {
-        CGRAPH_FUNCTION_END
-    }
-
-    /* 因为采取的是饥汉模式，不需要判断ptr是否为空了 */
-    auto element = dynamic_cast<T *>(s_singleton_.get());
-    status = element->init();
-    if (status.isOK()) {
+    if (!s_is_init_) {
+        /* 因为采取的是饥汉模式，不需要判断ptr是否为空了 */
+        auto element = dynamic_cast<T *>(s_singleton_.get());
+        status = element->init();
+        CGRAPH_FUNCTION_CHECK_STATUS
         s_is_init_ = true;
     }
 
+    if (!is_using_) {
+        is_using_ = true;
+        s_user_num_++;
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -59,7 +77,14 @@ CStatus GSingleton<T>::run() {
 template <typename T>
 CStatus GSingleton<T>::destroy() {
     CGRAPH_FUNCTION_BEGIN
-    if (!s_is_init_) {
+    CGRAPH_LOCK_GUARD lk(s_mutex_);
+    if (is_using_) {
+        is_using_ = false;
+        s_user_num_--;
+    }
+
+    /* 仍有其他位置（包括其他 pipeline）在使用这个单例的时候，不做 destroy */
+    if (!s_is_init_ || s_user_num_ > 0) {
         CGRAPH_FUNCTION_END
     }
 
-- 
2.43.0


From 91f7fe7d06bf56477a4d71638bd82f73db32f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:17 +0000
Subject: [PATCH 50/58] fix: helper threads can be released from a helper
 thread

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index b53e668..793782b 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -197,22 +197,32 @@ CStatus UThreadPool::releaseSecondaryThread(CInt size) {
     // 先将所有已经结束的，给删掉。等待线程退出的过程在锁外进行（先于 lock 声明），防止与正在执行的任务互相等待
     std::list<std::unique_ptr<UThreadSecondary>> released;
     CGRAPH_LOCK_GUARD lock(st_mutex_);
-    for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
+    const auto& isReleased = [](const std::unique_ptr<UThreadSecondary>& st) { return !st->done_; };
+    // 如果当前线程，就是已经被标记释放的辅助线程，则无法等待自己退出，留到后续再删除
+    const CBool self = std::any_of(secondary_threads_.begin(), secondary_threads_.end(),
+                                   [&isReleased](const std::unique_ptr<UThreadSecondary>& st) {
+        return isReleased(st) && st->thread_.get_id() == std::this_thread::get_id();
+    });
+    for (auto iter = secondary_threads_.begin(); !self && iter != secondary_threads_.end(); ) {
         auto cur = iter++;
-        if (!(*cur)->done_) {
+        if (isReleased(*cur)) {
             released.splice(released.end(), secondary_threads_, cur);
         }
     }
 
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > static_cast<CInt>(secondary_threads_.size())),    \
+    const CInt leftSize = static_cast<CInt>(secondary_threads_.size()
+                          - std::count_if(secondary_threads_.begin(), secondary_threads_.end(), isReleased));
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > leftSize),    \
                                             "cannot release [" + std::to_string(size) + "] secondary thread,"    \
-                                            + "only [" + std::to_string(secondary_threads_.size()) + "] left.")
+                                            + "only [" + std::to_string(leftSize) + "] left.")
 
     // 再标记几个需要删除的信息
     for (auto iter = secondary_threads_.begin();
-         iter != secondary_threads_.end() && size-- > 0; ) {
-        (*iter)->done_ = false;
-        ++iter;
+         iter != secondary_threads_.end() && size > 0; ++iter) {
+        if (!isReleased(*iter)) {
+            (*iter)->done_ = false;
+            size--;
+        }
     }
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From 5410aeb6229edef539087f2dc2975a6eeb81c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 51/58] fix: what cannot be added to a pipeline is released

---
 src/GraphCtrl/GraphElement/GElement.cpp   |  4 ++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 15 ++++++++++++
 src/GraphCtrl/GraphPipeline/GPipeline.h   |  7 ++++++
 src/GraphCtrl/GraphPipeline/GPipeline.inl | 29 ++++++++++++++++++-----
 4 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index e30475a..280491c 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -158,10 +158,14 @@ CStatus GElement::addDependGElements(const GElementPtrSet& elements) {
         CGRAPH_ASSERT_INIT(false)
     }
 
+    // 全部校验通过之后，才开始添加。防止中途失败的时候，残留部分依赖关系
     for (GElementPtr element: elements) {
         CGRAPH_ASSERT_NOT_NULL(element)
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((element->belong_ != this->belong_),    \
         element->getName() + " cannot depend because not same belong info")
+    }
+
+    for (GElementPtr element: elements) {
         if (this == element) {
             continue;
         }
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 137bfc1..3714dea 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -409,6 +409,21 @@ CStatus GPipeline::innerRegister(GElementPtr element, const GElementPtrSet &depe
 }
 
 
+CVoid GPipeline::discard(GElementPtr element) {
+    if (nullptr == element) {
+        return;
+    }
+
+    for (auto* cur : element->dependence_) {
+        cur->run_before_.remove(element);
+    }
+    for (auto* child : element->children_) {
+        child->belong_ = nullptr;
+    }
+    CGRAPH_DELETE_PTR(element)
+}
+
+
 CStatus GPipeline::__registerGElement_4py(CGraph::GElementPtr element, const CGraph::GElementPtrSet &depends,
                                          const std::string &name, CSize loop) {
     return innerRegister(element, depends, name, loop);
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index d6f04e8..bc55d6b 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -443,6 +443,13 @@ private:
     CStatus innerRegister(GElementPtr element, const GElementPtrSet &depends,
                           const std::string &name, CSize loop);
 
+    /**
+     * 释放未能成功加入 pipeline 的 element 信息
+     * @param element
+     * @return
+     */
+    CVoid discard(GElementPtr element);
+
     /** 不允许外部赋值和构造 */
     CGRAPH_NO_ALLOWED_COPY(GPipeline)
 
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index 8aa6a9d..3dcdb67 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -50,6 +50,11 @@ CStatus GPipeline::registerGElement(GElementPPtr elementRef,
     }
 
     status = innerRegister(*elementRef, depends, name, loop);
+    if (status.isErr() && !std::is_base_of<GGroup, T>::value) {
+        // 内部创建的信息，注册失败后直接释放
+        discard(*elementRef);
+        (*elementRef) = nullptr;
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -87,6 +92,10 @@ CStatus GPipeline::registerGElement(GTemplateNodePtr<Args ...> *elementRef,
     CGRAPH_ASSERT_NOT_NULL(*elementRef)
 
     status = innerRegister(*elementRef, depends, CGRAPH_EMPTY, CGRAPH_DEFAULT_LOOP_TIMES);
+    if (status.isErr()) {
+        discard(*elementRef);
+        (*elementRef) = nullptr;
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -128,6 +137,9 @@ TNode* GPipeline::createGNode(const GNodeInfo &info, Args&&... args) {
     auto* node = new(std::nothrow) TNode(std::forward<Args>(args)...);
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(node)
     status = node->addElementInfo(info.dependence_, info.name_, info.loop_);
+    if (status.isErr()) {
+        discard(node);
+    }
     CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
 
     repository_.insert(node);
@@ -162,13 +174,18 @@ TGroup* GPipeline::createGGroup(const GElementPtrArr &elements,
                                         "createGGroup depends have nullptr.")
 
     auto* group = CGRAPH_SAFE_MALLOC_COBJECT(TGroup)
-    for (GElementPtr element : elements) {
-        status += group->addElement(element);
+    try {
+        // 加入group的时候，是不设定manager信息的
+        status = group->addElementInfo(depends, name, loop);
+        for (auto iter = elements.begin(); iter != elements.end() && status.isOK(); ++iter) {
+            status = group->addElement(*iter);
+        }
+    } catch (const CException& ex) {
+        status = CStatus(ex.what());
+    }
+    if (status.isErr()) {
+        discard(group);    // 创建失败的 group，不会影响到其中的 element
     }
-    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
-
-    // 加入group的时候，是不设定manager信息的
-    status = group->addElementInfo(depends, name, loop);
     CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
 
     this->repository_.insert(group);
-- 
2.43.0


From 32392f91598650172255b8025835d1940cd256bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 52/58] fix: background work ends before a pipeline is released

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 3714dea..751f4c9 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -24,6 +24,11 @@ GPipeline::GPipeline() {
 
 
 GPipeline::~GPipeline() {
+    // 如果没有经过 destroy 流程，则需要先停止所有后台的逻辑，再释放对应的信息
+    (void)daemon_manager_->destroy();
+    (void)event_manager_->waitAll();
+    (void)schedule_.destroy();
+
     // 结束的时候，会自动释放所有的element信息
     CGRAPH_DELETE_PTR(daemon_manager_)
     CGRAPH_DELETE_PTR(element_manager_)
-- 
2.43.0


From e421e1297a41d686b622c9e8aaa7909a27f9fff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 53/58] fix: work left over in a shared thread pool ends before
 its objects are released

---
 src/GraphCtrl/GraphElement/GElement.cpp         | 17 +++++++++++++++++
 src/GraphCtrl/GraphElement/GElement.h           |  8 ++++++++
 .../GraphElement/GElementRepository.cpp         |  7 +++++++
 src/GraphCtrl/GraphElement/GElementRepository.h |  7 +++++++
 src/GraphCtrl/GraphEvent/GEvent.cpp             | 16 ++++++++++++++++
 src/GraphCtrl/GraphEvent/GEvent.h               |  3 +++
 src/GraphCtrl/GraphEvent/GEventManager.cpp      | 11 +++++++++++
 src/GraphCtrl/GraphEvent/GEventManager.h        |  6 ++++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp       |  4 ++++
 9 files changed, 79 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 280491c..c9f9d67 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -572,6 +572,11 @@ CStatus GElement::asyncRun() {
         const auto result = std::move(async_result_);
         status = result.get();
     } else {
+        while (!left_results_.empty()
+               && std::future_status::ready == left_results_.front().wait_for(std::chrono::seconds(0))) {
+            left_results_.pop_front();
+        }
+        left_results_.emplace_back(async_result_);
         doAspect(internal::GAspectType::ENTER_TIMEOUT);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION( GElementTimeoutStrategy::AS_ERROR == timeout_strategy_,    \
         "[" + name_ + "] running time more than [" + std::to_string(timeout_) + "]ms")
@@ -593,6 +598,18 @@ CStatus GElement::getAsyncResult() {
 }
 
 
+CVoid GElement::waitLeftResults() {
+    if (belong_) {
+        belong_->waitLeftResults();    // 所在 group 执行结束之后，才不会再有新的内容
+    }
+
+    for (auto& cur : left_results_) {
+        cur.wait();
+    }
+    left_results_.clear();
+}
+
+
 CStatus GElement::checkSuitable() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(thread_pool_)
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 3833c35..1a24c00 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -11,6 +11,7 @@
 
 #include <set>
 #include <vector>
+#include <list>
 #include <string>
 #include <atomic>
 #include <algorithm>
@@ -424,6 +425,12 @@ private:
      */
     CStatus getAsyncResult();
 
+    /**
+     * 等待超时之后仍在执行的异步逻辑，执行结束
+     * @return
+     */
+    CVoid waitLeftResults();
+
     /**
      * 判断当前节点，是否符合执行逻辑。主要用于init的早期阶段
      * @return
@@ -483,6 +490,7 @@ private:
     std::vector<GElement *> children_ {};                                     // 子节点，适用于group类型
 
     /** 异步执行相关信息 */
+    std::list<std::shared_future<CStatus>> left_results_;                     // 用于记录超时之后，仍可能在执行的异步信息
     std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index e279d19..ad1de1b 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -189,6 +189,13 @@ CStatus GElementRepository::run() {
 }
 
 
+CVoid GElementRepository::waitLeft() {
+    for (auto& cur : elements_) {
+        cur->waitLeftResults();
+    }
+}
+
+
 GElementRepository::~GElementRepository() {
     // 删除所有内部的element信息
     for (GElementPtr element : elements_) {
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 567e08a..f0a1085 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -53,6 +53,13 @@ private:
      */
     CStatus reset();
 
+    /**
+     * 等待所有超时之后仍在执行的逻辑，执行结束
+     * @return
+     * @notice 主要针对共享线程池的场景
+     */
+    CVoid waitLeft();
+
     /**
      * 设置所有内部的element状态
      * @param state
diff --git a/src/GraphCtrl/GraphEvent/GEvent.cpp b/src/GraphCtrl/GraphEvent/GEvent.cpp
index ddf7b49..aee8a36 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.cpp
+++ b/src/GraphCtrl/GraphEvent/GEvent.cpp
@@ -88,6 +88,14 @@ std::shared_future<CVoid> GEvent::asyncProcess(GEventAsyncStrategy strategy) {
     } else if (GEventAsyncStrategy::PIPELINE_DESTROY == strategy) {
         CGRAPH_LOCK_GUARD lock(async_destroy_lock_);
         async_destroy_futures_.emplace_back(future);
+    } else {
+        // 流程不需要等待，但是需要确保在 event 释放之前执行结束
+        CGRAPH_LOCK_GUARD lock(async_no_wait_lock_);
+        while (!async_no_wait_futures_.empty()
+               && std::future_status::ready == async_no_wait_futures_.front().wait_for(std::chrono::seconds(0))) {
+            async_no_wait_futures_.pop_front();
+        }
+        async_no_wait_futures_.emplace_back(future);
     }
     return future;
 }
@@ -111,6 +119,14 @@ CVoid GEvent::asyncWait(GEventAsyncStrategy strategy) {
             async_destroy_futures_.clear();
             break;
         }
+        case GEventAsyncStrategy::NO_WAIT: {
+            CGRAPH_LOCK_GUARD lock(async_no_wait_lock_);
+            for (auto& cur : async_no_wait_futures_) {
+                cur.valid() ? cur.wait() : void();
+            }
+            async_no_wait_futures_.clear();
+            break;
+        }
         default:
             CGRAPH_THROW_EXCEPTION("unknown event async strategy type")
     }
diff --git a/src/GraphCtrl/GraphEvent/GEvent.h b/src/GraphCtrl/GraphEvent/GEvent.h
index 159c973..a2a8fbc 100644
--- a/src/GraphCtrl/GraphEvent/GEvent.h
+++ b/src/GraphCtrl/GraphEvent/GEvent.h
@@ -10,6 +10,7 @@
 #define CGRAPH_GEVENT_H
 
 #include <vector>
+#include <list>
 #include <future>
 #include <mutex>
 
@@ -71,10 +72,12 @@ private:
 private:
     std::vector<std::shared_future<CVoid>> async_run_finish_futures_ {};    // 异步执行的逻辑集合（pipeline run结束的时候）
     std::vector<std::shared_future<CVoid>> async_destroy_futures_ {};       // 异步执行的逻辑集合（pipeline destroy 的时候）
+    std::list<std::shared_future<CVoid>> async_no_wait_futures_ {};         // 异步执行的逻辑集合（流程不需要等待）
     GEventParamPtr param_ { nullptr };                                      // 事件参数信息
 
     std::mutex async_run_finished_lock_;
     std::mutex async_destroy_lock_;
+    std::mutex async_no_wait_lock_;
 
     friend class GEventManager;
     friend class GStorage;
diff --git a/src/GraphCtrl/GraphEvent/GEventManager.cpp b/src/GraphCtrl/GraphEvent/GEventManager.cpp
index 63857ad..e1e9c13 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.cpp
+++ b/src/GraphCtrl/GraphEvent/GEventManager.cpp
@@ -100,6 +100,17 @@ CStatus GEventManager::waitAll() {
 }
 
 
+CStatus GEventManager::waitLeft() {
+    CGRAPH_FUNCTION_BEGIN
+    for (auto& iter : events_map_) {
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
+        iter.second->asyncWait(GEventAsyncStrategy::NO_WAIT);
+    }
+    CGRAPH_FUNCTION_END
+}
+
+
 CStatus GEventManager::__create_4py(GEventPtr event, const std::string& key) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(event)
diff --git a/src/GraphCtrl/GraphEvent/GEventManager.h b/src/GraphCtrl/GraphEvent/GEventManager.h
index 5d73d91..82d83ed 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.h
+++ b/src/GraphCtrl/GraphEvent/GEventManager.h
@@ -72,6 +72,12 @@ protected:
      */
     CStatus waitAll();
 
+    /**
+     * 等待剩余的所有异步event（包括流程不需要等待的），执行结束。用于释放之前
+     * @return
+     */
+    CStatus waitLeft();
+
     CGRAPH_NO_ALLOWED_COPY(GEventManager)
 
 private:
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 751f4c9..e0a0c25 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -28,6 +28,8 @@ GPipeline::~GPipeline() {
     (void)daemon_manager_->destroy();
     (void)event_manager_->waitAll();
     (void)schedule_.destroy();
+    repository_.waitLeft();
+    (void)event_manager_->waitLeft();
 
     // 结束的时候，会自动释放所有的element信息
     CGRAPH_DELETE_PTR(daemon_manager_)
@@ -109,6 +111,8 @@ CStatus GPipeline::destroy() {
     status += daemon_manager_->destroy();    // daemon 可能会触发 event，故最先停止
     status += event_manager_->waitAll();     // 异步触发的 event 依赖线程池，故需要在线程池析构之前，等待其执行结束
     status += schedule_.destroy();
+    repository_.waitLeft();    // 使用共享线程池的情况下，需要等待超时的逻辑，以及其触发的 event，执行结束
+    status += event_manager_->waitLeft();
     status += event_manager_->destroy();
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
-- 
2.43.0


From 1cc039db21fd108e28e2a5990b172736dd4723a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 54/58] fix: a pipeline whose destroy was not finished refuses
 to run

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 1 +
 src/GraphCtrl/GraphPipeline/GPipeline.cpp      | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 3724464..f622659 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -58,6 +58,7 @@ CStatus GElementManager::destroy() {
 CStatus GElementManager::run() {
     CGRAPH_FUNCTION_BEGIN
 
+    CGRAPH_ASSERT_NOT_NULL(engine_)
     status = engine_->run();    // 通过引擎来执行全部的逻辑
     CGRAPH_FUNCTION_END
 }
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index e0a0c25..55ec14e 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -65,6 +65,8 @@ CStatus GPipeline::init() {
 CStatus GPipeline::run() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_INIT(true)
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(nullptr == schedule_.getThreadPool(),    \
+    "pipeline has no thread pool, for its destroy was not finished")
 
     /**
      * 1. 将所有 GElement 的状态设定为 NORMAL
-- 
2.43.0


From 1fbb61da0ed21b13c8f2803a6ce11c9b00d269f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 55/58] fix: trimming leaves elements that are not registered
 alone

---
 .../GraphElement/_GOptimizer/GOptimizer.h        | 16 +++++++++++++---
 .../GraphElement/_GOptimizer/GTrimOptimizer.h    |  8 ++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h b/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h
index 6aeb9a9..63761f3 100644
--- a/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h
+++ b/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h
@@ -76,10 +76,20 @@ protected:
 
         for (const auto& path : paths) {
             for (CSize i = 0; i < path.size(); i++) {
-                // 这里的 find是一定能找到的。因为path的数据，是从elements中记录的
-                CSize height = std::distance(elements.begin(), elements.find(path[i]));
+                // path中，可能包含创建之后，还没有被注册的 element，不参与计算
+                const auto& cur = elements.find(path[i]);
+                if (elements.end() == cur) {
+                    continue;
+                }
+
+                CSize height = std::distance(elements.begin(), cur);
                 for (CSize j = i + 1; j < path.size(); j++) {
-                    CSize column = std::distance(elements.begin(), elements.find(path[j]));
+                    const auto& next = elements.find(path[j]);
+                    if (elements.end() == next) {
+                        continue;
+                    }
+
+                    CSize column = std::distance(elements.begin(), next);
                     graph[height][column] = father;
                     graph[column][height] = son;
                 }
diff --git a/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h b/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
index ae5c509..871f0a0 100644
--- a/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
+++ b/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
@@ -32,9 +32,17 @@ class GTrimOptimizer : public GOptimizer {
             CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(cur)
             GElementPtrArr candidates;
             for (CSize i = 0; i < cur->dependence_.size(); i++) {
+                if (elements.end() == elements.find(cur->dependence_[i])) {
+                    continue;    // 依赖的 element 还没有被注册
+                }
+
                 CSize x = std::distance(elements.begin(), elements.find(cur->dependence_[i]));
                 for (CSize j = 0; j < cur->dependence_.size(); j++) {
                     // 这里必须是 n^2 的循环
+                    if (elements.end() == elements.find(cur->dependence_[j])) {
+                        continue;
+                    }
+
                     CSize y = std::distance(elements.begin(), elements.find(cur->dependence_[j]));
                     if (1 == graph[x][y]) {
                         candidates.push_back(cur->dependence_[i]);
-- 
2.43.0


From abd8daaa9c7dfcf4afa2fdbf2158e8da1c7c560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:03 +0000
Subject: [PATCH 56/58] fix: leaving a parameter's with block keeps the
 interpreter lock

---
 python/PyCGraph.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/PyCGraph.cpp b/python/PyCGraph.cpp
index bdc6bcf..7354348 100644
--- a/python/PyCGraph.cpp
+++ b/python/PyCGraph.cpp
@@ -171,10 +171,11 @@ PYBIND11_MODULE(pycgraph, cg) {
                 self.lock();
                 return self;
             }, py::call_guard<py::gil_scoped_release>(), py::return_value_policy::reference_internal)
-        .def("__exit__", [](GParam& self, py::object, py::object, py::object) {
+        .def("__exit__", [](GParam& self, const py::object&, const py::object&, const py::object&) {
+                // 入参是 python 对象，需要在持有 gil 的情况下释放
                 self.unlock();
                 return false;
-            }, py::call_guard<py::gil_scoped_release>());
+            });
 
     py::class_<GPassedParam, PywGPassedParam, std::unique_ptr<GPassedParam, py::nodelete> >(cg, "GPassedParam")
         .def(py::init<>());
-- 
2.43.0


From 4ae5f6290fc16787e3c197faf832e6f7be513c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 57/58] fix: destroying from python lets the work of other
 threads finish

---
 python/PyCGraph.cpp                  | 9 ++++++---
 python/wrapper/PywGPipelineDeleter.h | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/PyCGraph.cpp b/python/PyCGraph.cpp
index 7354348..fe8e158 100644
--- a/python/PyCGraph.cpp
+++ b/python/PyCGraph.cpp
@@ -59,7 +59,8 @@ PYBIND11_MODULE(pycgraph, cg) {
               py::keep_alive<1, 2>())
         .def("getConfig", &UThreadPool::getConfig)
         .def("init", &UThreadPool::init)
-        .def("destroy", &UThreadPool::destroy)
+        .def("destroy", &UThreadPool::destroy,
+             py::call_guard<py::gil_scoped_release>())
         .def("isInit", &UThreadPool::isInit);
 
     py::register_exception<CException>(cg, "CException");
@@ -201,7 +202,8 @@ PYBIND11_MODULE(pycgraph, cg) {
         .def("process", &GPipeline::process,
              py::arg("runTimes") = 1,
              py::call_guard<py::gil_scoped_release>())
-        .def("destroy", &GPipeline::destroy)
+        .def("destroy", &GPipeline::destroy,
+             py::call_guard<py::gil_scoped_release>())
         .def("addGEvent", &GPipeline::__addGEvent_4py,
              py::arg("event"),
              py::arg("key"),
@@ -250,7 +252,8 @@ PYBIND11_MODULE(pycgraph, cg) {
         .def("init", &GPipelineManager::init)
         .def("run", &GPipelineManager::run,
              py::call_guard<py::gil_scoped_release>())
-        .def("destroy", &GPipelineManager::destroy)
+        .def("destroy", &GPipelineManager::destroy,
+             py::call_guard<py::gil_scoped_release>())
         .def("add", &GPipelineManager::add,
              py::arg("ptr"),
              py::keep_alive<1, 2>())
diff --git a/python/wrapper/PywGPipelineDeleter.h b/python/wrapper/PywGPipelineDeleter.h
index b5af640..5c549b6 100644
--- a/python/wrapper/PywGPipelineDeleter.h
+++ b/python/wrapper/PywGPipelineDeleter.h
@@ -9,10 +9,14 @@
 #ifndef CGRAPH_PYWGPIPELINEDELETER_H
 #define CGRAPH_PYWGPIPELINEDELETER_H
 
+#include <pybind11/pybind11.h>
+
 #include "CGraph.h"
 
 struct PywGPipelineDeleter {
     void operator()(CGraph::GPipelinePtr ptr) {
+        // 析构的时候，需要等待其他线程（如：daemon）中的 python 逻辑执行结束
+        pybind11::gil_scoped_release release;
         CGraph::GPipelineFactory::remove(ptr);
     }
 };
-- 
2.43.0


From 6e5f9dabc800aadf4b9b1baf1960615af1aadabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:13 +0000
Subject: [PATCH 58/58] fix: a timed-out element stays timed out across suspend
 and resume

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index ad1de1b..e034575 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -83,7 +83,10 @@ CStatus GElementRepository::pushAllState(const GElementState& state) {
     }
 
     for (auto& cur : elements_) {
-        cur->cur_state_.store(state, std::memory_order_release);
+        auto curState = cur->cur_state_.load(std::memory_order_acquire);
+        // 已经超时的 element，在本轮 run 结束之前，不会因为暂停和恢复而丢失超时状态
+        while (!(GElementState::TIMEOUT == curState && GElementState::CANCEL != state)
+               && !cur->cur_state_.compare_exchange_weak(curState, state)) {}
         if (GElementState::SUSPEND != state) {
             // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
             {
-- 
2.43.0

