From 84dfa5c314b599daff8d0c8c018fcd9c7f09a03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 01/51] fix: keep iterating validly when a receiver with
 subscriptions is removed

MessageEndpoint::remove_receiver erased the current element of the subscription
map and then incremented the invalidated iterator.
---
 knp/core-library/impl/message_endpoint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index cf29d86..c546778 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -129,11 +129,15 @@ void MessageEndpoint::remove_receiver(const UID &receiver)
 {
     SPDLOG_DEBUG("Removing receiver {}...", std::string(receiver));
 
-    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end(); ++sub_iter)
+    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end();)
     {
         if (get_receiver_uid(sub_iter->second) == receiver)
         {
-            subscriptions_.erase(sub_iter);
+            sub_iter = subscriptions_.erase(sub_iter);
+        }
+        else
+        {
+            ++sub_iter;
         }
     }
     update_senders();
-- 
2.43.0


From b090a2940b5c5344f8f653fda045eeb1d520e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 02/51] fix: CPU message bus keeps the order of messages across
 routing rounds

Messages were routed and received from the back of their containers, so the order
was right only if every routing round was followed by a complete receive: messages
of a later round overtook those of an earlier one that was not received yet.
---
 .../impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp | 10 ++++------
 .../impl/message_bus_cpu_impl/message_bus_cpu_impl.h   |  8 +++++---
 .../message_bus_cpu_impl/message_endpoint_cpu_impl.h   |  9 +++++----
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index 8c1fe76..6f5fdf4 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -68,9 +68,9 @@ size_t MessageBusCPUImpl::step()
     const std::lock_guard lock(mutex_);
     if (messages_to_route_.empty()) return 0;  // No more messages left for endpoints to receive.
     // Sending a message to every endpoint.
-    auto message = std::move(messages_to_route_.back());
+    auto message = std::move(messages_to_route_.front());
     // Remove message from container.
-    messages_to_route_.pop_back();
+    messages_to_route_.pop_front();
     const knp::core::UID sender_uid = std::visit([](const auto &msg) { return msg.header_.sender_uid_; }, message);
     for (auto endpoint_data_containers : endpoint_data_)
     {
@@ -92,10 +92,8 @@ core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
 {
     const std::lock_guard lock(mutex_);
 
-    using VT = std::vector<messaging::MessageVariant>;
-
-    auto messages_to_send_v{std::make_shared<VT>()};
-    auto recv_messages_v{std::make_shared<VT>()};
+    auto messages_to_send_v{std::make_shared<std::vector<messaging::MessageVariant>>()};
+    auto recv_messages_v{std::make_shared<std::deque<messaging::MessageVariant>>()};
 
     auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v));
     endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr());
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index 9bd0299..be77f32 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -26,6 +26,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <deque>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -53,14 +54,15 @@ public:
     [[nodiscard]] core::MessageEndpoint create_endpoint() override;
 
 private:
-    std::vector<knp::core::messaging::MessageVariant> messages_to_route_;
+    // Messages are routed in the order they were sent.
+    std::deque<knp::core::messaging::MessageVariant> messages_to_route_;
 
     // This is a list of endpoint data:
     // First vector is a pointer to a set of messages the endpoint is sending.
-    // Second vector is a set of messages endpoint is receiving.
+    // Second is a queue of messages endpoint is receiving, oldest first.
     // Third set contains message senders, and is kept updated by endpoints when they add or remove them.
     std::list<std::tuple<
-        std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::vector<messaging::MessageVariant>>,
+        std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::deque<messaging::MessageVariant>>,
         std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
         endpoint_data_;
     std::mutex mutex_;
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 8ac94ea..5f0b078 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -24,6 +24,7 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <deque>
 #include <memory>
 #include <mutex>
 #include <unordered_set>
@@ -45,7 +46,7 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 public:
     MessageEndpointCPUImpl(
         std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages)
+        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages)
         : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
@@ -70,14 +71,14 @@ public:
             return {};
         }
 
-        auto result = std::move(received_messages_->back());
-        received_messages_->pop_back();
+        auto result = std::move(received_messages_->front());
+        received_messages_->pop_front();
         return result;
     }
 
 private:
     std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
-    std::shared_ptr<std::vector<messaging::MessageVariant>> received_messages_;
+    std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
     std::mutex mutex_;
 };
-- 
2.43.0


From a6d1b1de2df2d9e3388ba902300a3ad70a60c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 03/51] fix: ZMQ bus publishes to a new endpoint at once

A publisher handles the subscription of a new subscriber when it next looks at its
commands, which ZMQ does not do on every send, so messages routed shortly after
MessageBus::create_endpoint() were lost for the new endpoint.
---
 .../impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
index 72fad81..243c9ac 100644
--- a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
+++ b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
@@ -171,6 +171,10 @@ MessageEndpoint MessageBusZMQImpl::create_endpoint()
     SPDLOG_DEBUG("Sub socket connecting to {}...", publish_sock_address_);
     sub_socket.connect(publish_sock_address_);
 
+    // The publisher learns of its new subscriber from a command, and commands are otherwise handled with a delay:
+    // messages published before that would be lost for the new endpoint. Requesting socket events handles them now.
+    static_cast<void>(publish_socket_.get(zmq::sockopt::events));
+
     return std::move(MessageEndpointZMQ(std::move(sub_socket), std::move(pub_socket)));
 }
 
-- 
2.43.0


From 56f10aa5497924152a005d8682c6230d810025f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 04/51] fix: ZMQ bus queues any number of messages

With the default ZMQ queue limits an endpoint that sent more than 2000 messages
between two routing rounds waited forever for the bus, which the same thread has to
run, and the bus dropped messages for an endpoint that had as many not received yet.
---
 .../message_bus_zmq_impl.cpp                    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
index 243c9ac..fa2d649 100644
--- a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
+++ b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
@@ -53,6 +53,19 @@ public:
 };
 
 
+/**
+ * @brief Remove limits on the number of queued messages.
+ * @details Messages are queued until the bus routes them and until an endpoint receives them. With the default limits
+ * a sender waits forever for the bus that the same thread has to run, and a publisher drops messages.
+ * @param socket socket that is neither bound nor connected yet.
+ */
+static void remove_queue_limits(zmq::socket_t &socket)
+{
+    socket.set(zmq::sockopt::sndhwm, 0);
+    socket.set(zmq::sockopt::rcvhwm, 0);
+}
+
+
 MessageBusZMQImpl::MessageBusZMQImpl()
     :  // TODO: Replace with std::format.
       router_sock_address_("inproc://route_" + std::string(UID())),
@@ -61,6 +74,8 @@ MessageBusZMQImpl::MessageBusZMQImpl()
       publish_socket_(context_, zmq::socket_type::pub)
 {
     SPDLOG_DEBUG("ZMQ message bus creating...");
+    remove_queue_limits(router_socket_);
+    remove_queue_limits(publish_socket_);
     SPDLOG_DEBUG("Router socket binding to {}...", router_sock_address_);
     router_socket_.bind(router_sock_address_);
     SPDLOG_DEBUG("Publish socket binding to {}...", publish_sock_address_);
@@ -148,6 +163,8 @@ MessageEndpoint MessageBusZMQImpl::create_endpoint()
 {
     zmq::socket_t sub_socket{context_, zmq::socket_type::sub};
     zmq::socket_t pub_socket{context_, zmq::socket_type::dealer};
+    remove_queue_limits(sub_socket);
+    remove_queue_limits(pub_socket);
 
 // #if (ZMQ_VERSION >= ZMQ_MAKE_VERSION(4, 3, 4))
 //         sub_socket_.set(zmq::sockopt::subscribe, "");
-- 
2.43.0


From e5680bf7413bbd10db50577a930ef88dcaef8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 05/51] fix: projection lookup index is rebuilt after removal
 by postsynaptic neuron

Projection::remove_postsynaptic_neuron_synapses left the index marked as valid, so
later lookups (and later calls of the same function) used positions from before the
removal.
---
 knp/core-library/impl/projection.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 924afe7..b8191b0 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -235,16 +235,11 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_postsynaptic_neuron_synapses(size_t neuron_index)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
-    bool was_index_updated = is_index_updated_;
-    // Basic exception safety.
-    is_index_updated_ = false;
     auto synapses_to_remove = find_synapses(neuron_index, Search::by_postsynaptic);
     std::sort(synapses_to_remove.begin(), synapses_to_remove.end());
+    // Synapses that follow a removed one change their positions, so the index must be built again.
+    is_index_updated_ = false;
     remove_by_index(parameters_, synapses_to_remove);
-    if (was_index_updated)
-        for (auto &synapse : synapses_to_remove) index_.erase(synapse);
-
-    is_index_updated_ = was_index_updated;
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From 08352694cb7e037151c6863a792d2a2542f8111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 06/51] fix: Population::remove_neurons removes the given
 neurons in any index order

Only an ascending list without repetitions worked: otherwise wrong neurons were
removed.
---
 knp/core-library/include/knp/core/population.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/include/knp/core/population.h b/knp/core-library/include/knp/core/population.h
index 63918f0..386eaa6 100644
--- a/knp/core-library/include/knp/core/population.h
+++ b/knp/core-library/include/knp/core/population.h
@@ -26,6 +26,7 @@
 #include <knp/core/uid.h>
 #include <knp/neuron-traits/all_traits.h>
 
+#include <algorithm>
 #include <functional>
 #include <utility>
 #include <vector>
@@ -208,8 +209,13 @@ public:  // NOLINT
      */
     void remove_neurons(const std::vector<size_t> &neuron_indexes)
     {
+        // Indexes refer to the population before the call, in any order.
+        std::vector<size_t> sorted_indexes = neuron_indexes;
+        std::sort(sorted_indexes.begin(), sorted_indexes.end());
+        sorted_indexes.erase(std::unique(sorted_indexes.begin(), sorted_indexes.end()), sorted_indexes.end());
+
         size_t index_shift = 0;
-        for (const auto &index : neuron_indexes)
+        for (const auto &index : sorted_indexes)
         {
             remove_neuron(index - index_shift++);
         }
-- 
2.43.0


From 5d6e60ec4a2c6d7f61564cc22518684ff1617b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 07/51] fix: Network rejects a duplicate population or
 projection added as a variant

---
 knp/base-framework/impl/network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/network.cpp b/knp/base-framework/impl/network.cpp
index 3810e94..9b61394 100644
--- a/knp/base-framework/impl/network.cpp
+++ b/knp/base-framework/impl/network.cpp
@@ -105,7 +105,7 @@ void Network::add_population(core::AllPopulationsVariant &&population)
 {
     SPDLOG_DEBUG("Adding population variant...");
 
-    // check_population_constraints(std::visit([](const auto &var_val) { return var_val; }, population));
+    std::visit([this](const auto &var_val) { check_population_constraints(var_val); }, population);
 
     populations_.emplace_back(population);
 }
@@ -202,7 +202,7 @@ void Network::add_projection(core::AllProjectionsVariant &&projection)
 {
     SPDLOG_DEBUG("Adding projection variant...");
 
-    // check_projection_constraints(std::visit([](const auto &var_val) { return var_val; }, projection));
+    std::visit([this](const auto &var_val) { check_projection_constraints(var_val); }, projection);
     projections_.emplace_back(projection);
 }
 
-- 
2.43.0


From 635f66313f63aa568500354c07c913f6037fecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 08/51] fix: BLIFAT bursting phase counts down and bursts once
 per spike

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 0c31824..1700c3e 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -37,9 +37,8 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_)
+    if (neuron.bursting_phase_ > 0 && 0 == --neuron.bursting_phase_)
     {
-        --neuron.bursting_phase_;
         neuron.potential_ += neuron.reflexive_weight_;
     }
 
@@ -59,7 +58,10 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.is_being_forced_ = false;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
+    if (neuron.bursting_phase_ > 0 && 0 == --neuron.bursting_phase_)
+    {
+        neuron.potential_ += neuron.reflexive_weight_;
+    }
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
-- 
2.43.0


From 00ccfd2dfc896826bd4c5ea9047a56858fffed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 09/51] fix: a BLIFAT neuron that never fired is not refractory

---
 .../impl/populations/blifat/blifat_impl.h            | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 1700c3e..66f283d 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -31,7 +31,11 @@ namespace knp::backends::cpu::populations::impl::blifat
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::BLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    // The maximum value means that the neuron has never fired.
+    if (neuron.n_time_steps_since_last_firing_ != std::numeric_limits<std::size_t>::max())
+    {
+        ++neuron.n_time_steps_since_last_firing_;
+    }
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
@@ -49,7 +53,11 @@ inline void calculate_pre_impact_single_neuron_state_impl(
 inline void calculate_pre_impact_single_neuron_state_impl(
     knp::neuron_traits::neuron_parameters<knp::neuron_traits::SynapticResourceSTDPBLIFATNeuron> &neuron)
 {
-    ++neuron.n_time_steps_since_last_firing_;
+    // The maximum value means that the neuron has never fired.
+    if (neuron.n_time_steps_since_last_firing_ != std::numeric_limits<std::size_t>::max())
+    {
+        ++neuron.n_time_steps_since_last_firing_;
+    }
     neuron.dynamic_threshold_ *= neuron.threshold_decay_;
     neuron.postsynaptic_trace_ *= neuron.postsynaptic_trace_decay_;
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
-- 
2.43.0


From 22d8adf9cc9ad74d94f28d9782b64eef109e84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 10/51] fix: multi-threaded impact message names the pre- and
 postsynaptic populations correctly

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index 032a563..ff1b2a2 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -165,8 +165,8 @@ void calculate_projection_multithreaded_impl(
         {
             knp::core::messaging::SynapticImpactMessage message_out{
                 {projection_uid, step_n},
-                postsynaptic_uid,
                 presynaptic_uid,
+                postsynaptic_uid,
                 training::stdp::is_forced(projection),
                 {value.second}};
             future_messages.insert(std::make_pair(value.first, message_out));
-- 
2.43.0


From 02e55b361c9f7d4bbe313c09fd0ada2c911b133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 11/51] fix: multi-threaded backend processes every spike
 message of a projection

---
 .../impl/backend.cpp                          | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 8b75e80..f08809c 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -232,16 +232,20 @@ void send_message(ProjectionWrapper &projection, core::MessageEndpoint &endpoint
     }
 }
 
-inline std::unordered_map<uint64_t, size_t> convert_spikes(const core::messaging::SpikeMessage &message)
+inline std::unordered_map<uint64_t, size_t> convert_spikes(
+    const std::vector<core::messaging::SpikeMessage> &messages)
 {
     std::unordered_map<knp::core::Step, size_t> result;
-    for (auto neuron_idx : message.neuron_indexes_)
+    for (const auto &message : messages)
     {
-        auto iter = result.find(neuron_idx);
-        if (result.end() == iter)
-            result.insert({neuron_idx, 1});
-        else
-            ++(iter->second);
+        for (auto neuron_idx : message.neuron_indexes_)
+        {
+            auto iter = result.find(neuron_idx);
+            if (result.end() == iter)
+                result.insert({neuron_idx, 1});
+            else
+                ++(iter->second);
+        }
     }
     return result;
 }
@@ -264,7 +268,7 @@ void MultiThreadedCPUBackend::calculate_projections()
         }
 
         // Looping over synapses.
-        converted_message_buffer.emplace_back(convert_spikes(msg_buf[0]));
+        converted_message_buffer.emplace_back(convert_spikes(msg_buf));
         const auto proj_size = std::visit([](const auto &proj) { return proj.size(); }, projection.arg_);
         for (size_t synapse_index = 0; synapse_index < proj_size; synapse_index += projection_part_size_)
         {
-- 
2.43.0


From 03937ad7fa5419e62ada3e42a5995b7c5b0e23e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 12/51] fix: multi-threaded backend sends one impact per spike

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index ff1b2a2..572f1e4 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -141,12 +141,13 @@ void calculate_projection_multithreaded_impl(
         }
 
         knp::core::messaging::SynapticImpact impact{
-            synapse_index, std::get<core::synapse_data>(synapse).weight_ * iter->second,
+            synapse_index, std::get<core::synapse_data>(synapse).weight_,
             std::get<core::synapse_data>(synapse).output_type_,
             static_cast<uint32_t>(std::get<core::source_neuron_id>(synapse)),
             static_cast<uint32_t>(std::get<core::target_neuron_id>(synapse))};
 
-        container.emplace_back(key, impact);
+        // One impact per spike of the presynaptic neuron.
+        container.insert(container.end(), iter->second, std::make_pair(key, impact));
     }
     // Add impacts to future messages queue, it is a shared resource.
     const std::lock_guard lock_guard(mutex);
-- 
2.43.0


From 2308e0a758691c0b160fdd8d9270bb6ceee4a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 13/51] fix: a backend run ends not running and honours a stop
 requested by its condition

---
 knp/core-library/impl/backend.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 3542aea..144c820 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -89,6 +89,7 @@ void Backend::start()
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -99,7 +100,7 @@ void Backend::start(const RunPredicate& run_predicate)
 
     try
     {
-        while (running() && run_predicate(step_))
+        while (running() && run_predicate(step_) && running())
         {
             _step();
         }
@@ -109,6 +110,7 @@ void Backend::start(const RunPredicate& run_predicate)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
@@ -121,7 +123,8 @@ void Backend::start(const RunPredicate& pre_step, const RunPredicate& post_step)
     {
         while (running())
         {
-            if (pre_step && !pre_step(step_))
+            // The condition can stop the backend.
+            if ((pre_step && !pre_step(step_)) || !running())
             {
                 break;
             }
@@ -137,6 +140,7 @@ void Backend::start(const RunPredicate& pre_step, const RunPredicate& post_step)
         started_ = false;
         throw;
     }
+    started_ = false;
     SPDLOG_INFO("Backend {} stopped.", std::string(base_.uid_));
 }
 
-- 
2.43.0


From 7a00f48e7be9c65aaef7fab1efc52a229dcb9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:52 +0000
Subject: [PATCH 14/51] fix: select_devices selects every requested device

---
 knp/core-library/impl/backend.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 144c820..1aa4fae 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -170,22 +170,25 @@ void Backend::_uninit()
 
 void Backend::select_devices(const std::set<UID>& uids)
 {
+    std::vector<std::unique_ptr<Device>> selected;
     for (auto&& device : get_devices())
     {
         SPDLOG_DEBUG("Trying UID {}...", std::string(device->get_uid()));
         if (uids.find(device->get_uid()) != uids.end())
         {
             SPDLOG_INFO("Device with UID {} was selected.", std::string(device->get_uid()));
-            devices_.push_back(std::move(device));
-            return;
+            selected.push_back(std::move(device));
+            continue;
         }
         SPDLOG_TRACE("Device with UID {} was not selected.", std::string(device->get_uid()));
     }
 
-    if (uids.size() != devices_.size())
+    if (uids.size() != selected.size())
     {
         throw std::logic_error("Not all devices were selected.");
     }
+
+    devices_ = std::move(selected);
 }
 
 void Backend::select_device(std::unique_ptr<Device>&& device)
-- 
2.43.0


From 98f729563c726d057a9d991070089fb02312847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 15/51] fix: impacts of different synapse types are not equal

---
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 96e9f1f..9b1aca2 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -34,7 +34,8 @@ bool SynapticImpact::operator==(const SynapticImpact &other) const
 {
     return connection_index_ == other.connection_index_ &&
            presynaptic_neuron_index_ == other.presynaptic_neuron_index_ &&
-           postsynaptic_neuron_index_ == other.postsynaptic_neuron_index_ && impact_value_ == other.impact_value_;
+           postsynaptic_neuron_index_ == other.postsynaptic_neuron_index_ && impact_value_ == other.impact_value_ &&
+           synapse_type_ == other.synapse_type_;
 }
 
 
-- 
2.43.0


From 4cbb162894257b6a7895fc079e4e5b399250cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 16/51] fix: OutputChannel reads any range of steps

---
 knp/base-framework/impl/output_channel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index 056f217..4873763 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -56,11 +56,12 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::read_some_from_buffer(
 {
     std::vector<core::messaging::SpikeMessage> result;
 
-    result.reserve(starting_step + final_step + 1);
     // Here we assume that buffer is sorted.
     auto begin_iter = std::lower_bound(message_buffer_.begin(), message_buffer_.end(), starting_step, comp_lower);
     auto end_iter = std::upper_bound(message_buffer_.begin(), message_buffer_.end(), final_step, comp_upper);
+    if (begin_iter >= end_iter) return result;
 
+    result.reserve(std::distance(begin_iter, end_iter));
     std::move(begin_iter, end_iter, std::back_inserter(result));
     message_buffer_.erase(begin_iter, end_iter);
     return result;
-- 
2.43.0


From 3a3878bc157bf298d55c775815b71da933020dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 17/51] fix: model loader creates every channel when their
 hashes collide

---
 knp/base-framework/impl/model_loader.cpp | 33 +++++++-----------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/knp/base-framework/impl/model_loader.cpp b/knp/base-framework/impl/model_loader.cpp
index 2770968..653746f 100644
--- a/knp/base-framework/impl/model_loader.cpp
+++ b/knp/base-framework/impl/model_loader.cpp
@@ -34,31 +34,18 @@ void ModelLoader::init_channels(
     knp::framework::Model &model, const std::unordered_multimap<core::UID, core::UID, core::uid_hash> &channels,
     GenType channel_gen)
 {
-    for (size_t i = 0; i < channels.bucket_count(); ++i)
+    // Equal keys are adjacent in a multimap.
+    for (auto iter = channels.begin(); iter != channels.end();)
     {
-        auto bucket_iter = channels.begin(i);
-        if (channels.end(i) == bucket_iter) continue;
-        auto channel_uid = bucket_iter->first;
-
+        const auto channel_uid = iter->first;
         std::vector<core::UID> p_uids;
-        p_uids.reserve(channels.bucket_size(i));
-
-        std::transform(
-            bucket_iter, channels.end(i), std::back_inserter(p_uids),
-#ifdef __clang__
-#    pragma clang diagnostic push
-#    pragma clang diagnostic ignored "-Wunused-lambda-capture"
-#endif
-            [&channel_uid](const auto &bucket)
-            {
-                SPDLOG_TRACE(
-                    "Inserting channel {} peer bucket UID = {}...", std::string(channel_uid),
-                    std::string(bucket.second));
-                return bucket.second;
-            });
-#ifdef __clang__
-#    pragma clang diagnostic pop
-#endif
+
+        for (; iter != channels.end() && iter->first == channel_uid; ++iter)
+        {
+            SPDLOG_TRACE(
+                "Inserting channel {} peer UID = {}...", std::string(channel_uid), std::string(iter->second));
+            p_uids.push_back(iter->second);
+        }
         (this->*channel_gen)(model, channel_uid, p_uids);
     }
 }
-- 
2.43.0


From 01bb09f46149339cac00f482a8fbee31019d105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 18/51] fix: aligned generator stays in range when sizes do not
 divide evenly

---
 .../include/knp/framework/projection/synapse_generators.h  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/synapse_generators.h b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
index 9333512..beca155 100644
--- a/knp/base-framework/include/knp/framework/projection/synapse_generators.h
+++ b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
@@ -100,20 +100,17 @@ template <typename SynapseType>
             syn_gen](size_t index) -> std::optional<typename knp::core::Projection<SynapseType>::Synapse>
     {
         size_t from_index = 0;
-        size_t pack_size = 0;
         size_t to_index = 0;
 
         if (presynaptic_pop_size >= postsynaptic_pop_size)
         {
             from_index = index;
-            pack_size = presynaptic_pop_size / postsynaptic_pop_size;
-            to_index = index / pack_size;
+            to_index = index * postsynaptic_pop_size / presynaptic_pop_size;
         }
         else
         {
             to_index = index;
-            pack_size = postsynaptic_pop_size / presynaptic_pop_size;
-            from_index = index / pack_size;
+            from_index = index * presynaptic_pop_size / postsynaptic_pop_size;
         }
         return std::make_tuple(syn_gen(from_index, to_index), from_index, to_index);
     };
-- 
2.43.0


From 4d03be08e48c5d4a7ea48656ce7a6acdcf9d599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 19/51] fix: reading an empty message from a stream clears the
 target's old contents

---
 knp/core-library/impl/messaging/spike_message.cpp           | 2 --
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 1 -
 2 files changed, 3 deletions(-)

diff --git a/knp/core-library/impl/messaging/spike_message.cpp b/knp/core-library/impl/messaging/spike_message.cpp
index f6e9244..f090a9a 100644
--- a/knp/core-library/impl/messaging/spike_message.cpp
+++ b/knp/core-library/impl/messaging/spike_message.cpp
@@ -58,8 +58,6 @@ std::istream &operator>>(std::istream &stream, SpikeMessage &msg)
     size_t neurons_count = 0;
     stream >> msg.header_.sender_uid_ >> msg.header_.send_time_ >> neurons_count;
 
-    if (0 == neurons_count) return stream;
-
     msg.neuron_indexes_.resize(neurons_count);
     for (size_t i = 0; i < neurons_count; ++i)
     {
diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 9b1aca2..c4d5f08 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -83,7 +83,6 @@ std::istream &operator>>(std::istream &stream, SynapticImpactMessage &msg)
         impacts_count;
 
     msg.is_forcing_ = forcing_buf;
-    if (0 == impacts_count) return stream;
 
     msg.impacts_.resize(impacts_count);
     for (size_t i = 0; i < impacts_count; ++i)
-- 
2.43.0


From 2894228a8200f10cf2c6f7d00763c50239d23020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 20/51] fix: impact values written to a stream are read back
 without loss

---
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index c4d5f08..af273d8 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -22,6 +22,7 @@
 #include <spdlog/spdlog.h>
 
 #include <algorithm>
+#include <limits>
 
 #include "synaptic_impact_message_impl.h"
 #include "uid_marshal.h"
@@ -60,8 +61,11 @@ std::istream &operator>>(std::istream &stream, SynapticImpact &impact)
 
 std::ostream &operator<<(std::ostream &stream, const SynapticImpact &impact)
 {
+    // The value must be readable back without loss.
+    const auto precision = stream.precision(std::numeric_limits<decltype(impact.impact_value_)>::max_digits10);
     stream << impact.connection_index_ << " " << impact.impact_value_ << " " << static_cast<int>(impact.synapse_type_)
            << " " << impact.presynaptic_neuron_index_ << " " << impact.postsynaptic_neuron_index_;
+    stream.precision(precision);
     return stream;
 }
 
-- 
2.43.0


From 3ebdc01247791974a6bdbd4320e4b31f7be19b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 21/51] fix: posting to the thread pool does not wait for its
 tasks

---
 .../thread_pool/thread_pool_executor.h        | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
index 95fab97..c196fb8 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
@@ -48,7 +48,20 @@ public:
      * @note Lifetime of thread pool context should be at least as long as lifetime of this class object.
      */
     explicit ThreadPoolExecutor(ThreadPoolContext &context)
-        : context_(context), task_count_(std::make_shared<size_t>(0))
+        : context_(context), task_count_(std::make_shared<size_t>(0)), wait_on_destroy_(true)
+    {
+    }
+
+    /**
+     * @brief Copy executor.
+     *
+     * @param other executor to copy.
+     *
+     * @note The `asio` library copies executors to post a task. A copy adds tasks to the same set of tasks, but its
+     * destructor does not wait for them.
+     */
+    ThreadPoolExecutor(const ThreadPoolExecutor &other) noexcept
+        : context_(other.context_), task_count_(other.task_count_), wait_on_destroy_(false)
     {
     }
 
@@ -93,8 +106,13 @@ public:
 
     /**
      * @brief Blocking destructor that waits for all tasks to be completed.
+     *
+     * @note Destructor of a copied executor does not wait.
      */
-    ~ThreadPoolExecutor() { join(); }
+    ~ThreadPoolExecutor()
+    {
+        if (wait_on_destroy_) join();
+    }
 
 private:
     template <class Func>
@@ -148,6 +166,7 @@ private:
 
     ThreadPoolContext &context_;
     std::shared_ptr<size_t> task_count_;
+    const bool wait_on_destroy_;
 };
 
 }  // namespace knp::backends::cpu_executors
-- 
2.43.0


From aac16f87c44a4b2c4b92b6b220cccec60ee1f136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 22/51] fix: a synapse with equal weight bounds and no resource
 does not get a NaN weight

---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index d65489e..71b2baf 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -48,7 +48,9 @@ void recalculate_synapse_weights(
         const auto &rule = synapse.get().rule_;
         const auto syn_w = std::max(rule.synaptic_resource_, 0.F);
         const auto weight_diff = rule.w_max_ - rule.w_min_;
-        synapse.get().weight_ = rule.w_min_ + weight_diff * syn_w / (weight_diff + syn_w);
+        // Without resource the weight is minimal, also when both bounds are equal.
+        synapse.get().weight_ =
+            syn_w > 0 ? rule.w_min_ + weight_diff * syn_w / (weight_diff + syn_w) : rule.w_min_;
     }
 }
 
-- 
2.43.0


From cf600c8875bdb666035cb44f4c88a97de9bfde2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 23/51] fix: a neuron without plastic synapses keeps its free
 synaptic resource

---
 .../backends/cpu-library/impl/populations/training/stdp.h   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index 71b2baf..93071c0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -173,6 +173,12 @@ inline void renormalize_resource(
 
         auto synapse_params = get_all_connected_synapses<Synapse>(working_projections, neuron_index);
 
+        // Without plastic synapses there is nothing to share the resource with.
+        if (synapse_params.empty())
+        {
+            continue;
+        }
+
         // Divide free resource between all synapses.
         auto add_resource_value =
             neuron.free_synaptic_resource_ / (synapse_params.size() + neuron.resource_drain_coefficient_);
-- 
2.43.0


From 41fa8cd423f7d3708f1fd2617c76a97c5e4d2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 24/51] fix: additive STDP records presynaptic spikes at the
 synapses of their source neurons

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index b3bcc8c..f3f2e2a 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -156,7 +156,7 @@ inline void init_projection(
             append_spike_times(
                 projection, msg,
                 [&projection](uint32_t neuron_index)
-                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_postsynaptic); },
+                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_presynaptic); },
                 &knp::synapse_traits::STDPAdditiveRule<Synapse>::presynaptic_spike_times_);
         }
         if (processing_type == ProcessingType::STDPOnly)
-- 
2.43.0


From a2a77c2af5ee46bc09f7e9f2f756c5795382f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 25/51] fix: additive STDP decreases the weight when the
 postsynaptic spike comes first

---
 .../impl/projections/training/stdp/additive_stdp.h          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index f3f2e2a..43103c0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -50,7 +50,7 @@ public:
     [[nodiscard]] float stdp_w(float weight_diff) const
     {
         // Zhang et al. 1998.
-        return weight_diff > 0 ? a_plus_ * std::exp(-weight_diff / tau_plus_)
+        return weight_diff >= 0 ? a_plus_ * std::exp(-weight_diff / tau_plus_)
                                : a_minus_ * std::exp(weight_diff / tau_minus_);
     }
 
@@ -69,7 +69,7 @@ public:
             for (const auto &t_n : postsynaptic_spikes)
             {
                 // cppcheck-suppress useStlAlgorithm
-                w_j += stdp_w(static_cast<float>(t_n - t_f));
+                w_j += stdp_w(static_cast<float>(static_cast<int64_t>(t_n) - static_cast<int64_t>(t_f)));
             }
         }
         return w_j;
@@ -184,7 +184,7 @@ inline void modify_weights(knp::core::Projection<AdditiveSTDPSynapse<Synapse>> &
 
         if (rule.presynaptic_spike_times_.size() >= period && rule.postsynaptic_spike_times_.size() >= period)
         {
-            STDPFormula stdp_formula(rule.tau_plus_, rule.tau_minus_, 1, 1);
+            STDPFormula stdp_formula(rule.tau_plus_, rule.tau_minus_, 1, -1);
             SPDLOG_TRACE("Old weight = {}.", std::get<knp::core::synapse_data>(proj).weight_);
             std::get<knp::core::synapse_data>(proj).weight_ +=
                 stdp_formula(rule.presynaptic_spike_times_, rule.postsynaptic_spike_times_);
-- 
2.43.0


From 7fe5a8b8b8ca860a85863cd7b6d31c0d8a1c4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 26/51] fix: input channels are asked only for the data of
 steps that are executed

---
 knp/base-framework/impl/model_executor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/model_executor.cpp b/knp/base-framework/impl/model_executor.cpp
index 71c18be..f2810d8 100644
--- a/knp/base-framework/impl/model_executor.cpp
+++ b/knp/base-framework/impl/model_executor.cpp
@@ -96,13 +96,17 @@ void ModelExecutor::start(core::Backend::RunPredicate run_predicate)
     get_backend()->start(
         [this, run_predicate](knp::core::Step step)
         {
+            // Run user predicate. Without a step to run, the channels are not asked for its data.
+            if (!run_predicate(step) || !get_backend()->running())
+            {
+                return false;
+            }
             // Sending inputs from the channels.
             for (auto &i_ch : loader_.get_inputs())
             {
                 i_ch.send(step);
             }
-            // Run user predicate.
-            return run_predicate(step);
+            return true;
         },
         [this](knp::core::Step)
         {
-- 
2.43.0


From 234070c4f01ed1b142484043f9b05d582dc9cc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 27/51] fix: sequence converter emits nothing after the end of
 its stream

---
 .../knp/framework/io/in_converters/sequence_converter.h    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
index fbae413..04f8e25 100644
--- a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
+++ b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
@@ -80,8 +80,13 @@ public:
         core::messaging::SpikeData message_data;
         for (size_t i = 0; i < data_size_; ++i)
         {
-            ValueType value;
+            ValueType value{};
             *stream_ >> value;
+            // Nothing was read, because the stream has ended.
+            if (stream_->fail() && stream_->eof())
+            {
+                break;
+            }
             if (interpret_(value))
             {
                 message_data.push_back(i);
-- 
2.43.0


From 4842416a17c1393a2331253b3772ae056094c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 28/51] fix: group winner-take-all handler without winners does
 not read before its groups

---
 knp/base-framework/impl/message_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index e7c6cb6..c5d1b6f 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -80,7 +80,7 @@ knp::core::messaging::SpikeData GroupWtaRandomHandler::operator()(
     }
 
     const auto &spikes = messages[0].neuron_indexes_;
-    if (spikes.empty())
+    if (spikes.empty() || 0 == num_winners_)
     {
         return {};
     }
-- 
2.43.0


From b2f0f3d5b59f014fa726a808f81ab9e6ee77e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 29/51] fix: image data set takes whole images only and keeps a
 last label without line break

---
 .../impl/data_processing/classification/image.cpp           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index 68f1d81..0e61399 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -40,11 +40,13 @@ void Dataset::process_labels_and_images(
 
     while (images_stream.good() && labels_stream.good())
     {
-        images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size);
+        // A record is a whole image and its label.
+        if (!images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size)) break;
         auto spikes_frame = image_to_spikes(image_reading_buffer);
 
         std::string str;
-        if (!std::getline(labels_stream, str).good()) break;
+        // The last label is not necessarily followed by a line break.
+        if (!std::getline(labels_stream, str)) break;
         int label = std::stoi(str);
 
         // Push to training data set because we dont know dataset size yet for a split
-- 
2.43.0


From a33073b745d617e8485377e8907d1b41f1003426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 30/51] fix: builders make no connections with an empty
 population

---
 .../include/knp/framework/projection/creators.h             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/creators.h b/knp/base-framework/include/knp/framework/projection/creators.h
index eb84920..a29be00 100644
--- a/knp/base-framework/include/knp/framework/projection/creators.h
+++ b/knp/base-framework/include/knp/framework/projection/creators.h
@@ -102,7 +102,7 @@ template <typename SynapseType>
     return knp::core::Projection<SynapseType>(
         presynaptic_uid, postsynaptic_uid,
         synapse_generators::aligned<SynapseType>(presynaptic_pop_size, postsynaptic_pop_size, syn_gen),
-        std::max(presynaptic_pop_size, postsynaptic_pop_size));
+        presynaptic_pop_size && postsynaptic_pop_size ? std::max(presynaptic_pop_size, postsynaptic_pop_size) : 0);
 }
 
 
@@ -317,7 +317,7 @@ template <typename SynapseType>
     parameters_generators::SynGen2ParamsType<SynapseType> syn_gen =
         parameters_generators::default_synapse_gen_2param<SynapseType>)
 {
-    const auto proj_size = presynaptic_pop_size * neurons_count;
+    const auto proj_size = postsynaptic_pop_size ? presynaptic_pop_size * neurons_count : 0;
 
     return knp::core::Projection<SynapseType>(
         presynaptic_uid, postsynaptic_uid,
@@ -355,7 +355,7 @@ template <typename SynapseType>
     parameters_generators::SynGen2ParamsType<SynapseType> syn_gen =
         parameters_generators::default_synapse_gen_2param<SynapseType>)
 {
-    const auto proj_size = postsynaptic_pop_size * neurons_count;
+    const auto proj_size = presynaptic_pop_size ? postsynaptic_pop_size * neurons_count : 0;
 
     return knp::core::Projection<SynapseType>(
         presynaptic_uid, postsynaptic_uid,
-- 
2.43.0


From ddbb69d5ac2de20f25e9328467ff4510e90ca44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 31/51] fix: status logger writes at its logging period

---
 knp/base-framework/impl/monitoring/model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/impl/monitoring/model.cpp b/knp/base-framework/impl/monitoring/model.cpp
index 7d9e255..13e040d 100644
--- a/knp/base-framework/impl/monitoring/model.cpp
+++ b/knp/base-framework/impl/monitoring/model.cpp
@@ -231,9 +231,9 @@ void add_status_logger(
         std::visit([&populations_uids](auto const &neuron) { populations_uids.push_back(neuron.get_uid()); }, neuron);
     }
     model_executor.add_observer<knp::core::messaging::SpikeMessage>(
-        [&log_stream](const std::vector<knp::core::messaging::SpikeMessage> &messages)
+        [&log_stream, &model_executor, logging_period](const std::vector<knp::core::messaging::SpikeMessage> &messages)
         {
-            if (messages.empty()) return;
+            if (messages.empty() || model_executor.get_backend()->get_step() % logging_period != 0) return;
             log_stream << messages.size() << std::endl;
         },
         populations_uids);
-- 
2.43.0


From 1bc869a5aee11cd80ab71af60c7956f89f7abf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 32/51] fix: CPU bus guards messages of an endpoint with the
 endpoint's mutex while routing

---
 .../message_bus_cpu_impl/message_bus_cpu_impl.cpp   |  9 +++++++--
 .../message_bus_cpu_impl/message_bus_cpu_impl.h     |  3 ++-
 .../message_endpoint_cpu_impl.h                     | 13 ++++++++-----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
index 6f5fdf4..283439d 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp
@@ -53,6 +53,7 @@ void MessageBusCPUImpl::update()
             continue;
         }
 
+        const std::lock_guard endpoint_lock(*std::get<3>(*iter));
         // Read all sent messages to an internal buffer.
         messages_to_route_.insert(
             messages_to_route_.end(), std::make_move_iterator(send_container_ptr->begin()),
@@ -80,6 +81,7 @@ size_t MessageBusCPUImpl::step()
         if ((!recv_ptr) || (!allowed_senders_ptr)) continue;
         if (allowed_senders_ptr->find(sender_uid) != allowed_senders_ptr->end())
         {
+            const std::lock_guard endpoint_lock(*std::get<3>(endpoint_data_containers));
             recv_ptr->emplace_back(message);
         }
     }
@@ -95,8 +97,11 @@ core::MessageEndpoint MessageBusCPUImpl::create_endpoint()
     auto messages_to_send_v{std::make_shared<std::vector<messaging::MessageVariant>>()};
     auto recv_messages_v{std::make_shared<std::deque<messaging::MessageVariant>>()};
 
-    auto endpoint = MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v));
-    endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr());
+    auto endpoint_mutex{std::make_shared<std::mutex>()};
+
+    auto endpoint =
+        MessageEndpointCPU(std::make_shared<MessageEndpointCPUImpl>(messages_to_send_v, recv_messages_v, endpoint_mutex));
+    endpoint_data_.emplace_back(messages_to_send_v, recv_messages_v, endpoint.get_senders_ptr(), endpoint_mutex);
     return std::move(endpoint);
 }
 
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
index be77f32..9770fcc 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_bus_cpu_impl.h
@@ -61,9 +61,10 @@ private:
     // First vector is a pointer to a set of messages the endpoint is sending.
     // Second is a queue of messages endpoint is receiving, oldest first.
     // Third set contains message senders, and is kept updated by endpoints when they add or remove them.
+    // Fourth is a mutex that guards the endpoint's messages.
     std::list<std::tuple<
         std::weak_ptr<std::vector<messaging::MessageVariant>>, std::weak_ptr<std::deque<messaging::MessageVariant>>,
-        std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>>>
+        std::weak_ptr<std::unordered_set<knp::core::UID, knp::core::uid_hash>>, std::shared_ptr<std::mutex>>>
         endpoint_data_;
     std::mutex mutex_;
 };
diff --git a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
index 5f0b078..5023992 100644
--- a/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
+++ b/knp/core-library/impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h
@@ -46,15 +46,17 @@ class MessageEndpointCPUImpl : public MessageEndpointImpl
 public:
     MessageEndpointCPUImpl(
         std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send,
-        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages)
-        : messages_to_send_(std::move(messages_to_send)), received_messages_(std::move(received_messages))
+        std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages, std::shared_ptr<std::mutex> mutex)
+        : messages_to_send_(std::move(messages_to_send)),
+          received_messages_(std::move(received_messages)),
+          mutex_(std::move(mutex))
     {
         SPDLOG_DEBUG("CPU message endpoint creating...");
     }
 
     void send_message(const knp::core::messaging::MessageVariant &message) override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         messages_to_send_->push_back(message);
         SPDLOG_TRACE("Message with type index = {} was sent", message.index());
@@ -64,7 +66,7 @@ public:
 
     std::optional<knp::core::messaging::MessageVariant> receive_message() override
     {
-        const std::lock_guard lock(mutex_);
+        const std::lock_guard lock(*mutex_);
 
         if (received_messages_->empty())
         {
@@ -80,7 +82,8 @@ private:
     std::shared_ptr<std::vector<messaging::MessageVariant>> messages_to_send_;
     std::shared_ptr<std::deque<messaging::MessageVariant>> received_messages_;
     std::unordered_set<knp::core::UID, knp::core::uid_hash> senders_;
-    std::mutex mutex_;
+    // The bus uses the same mutex to access messages of this endpoint.
+    std::shared_ptr<std::mutex> mutex_;
 };
 
 }  // namespace knp::core::messaging::impl
-- 
2.43.0


From da3e315f7ba3947217eb4bf358affe89558577ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 33/51] fix: a loaded backend keeps its library loaded

---
 knp/base-framework/impl/backend_loader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/backend_loader.cpp b/knp/base-framework/impl/backend_loader.cpp
index 4d2f322..be24bd4 100644
--- a/knp/base-framework/impl/backend_loader.cpp
+++ b/knp/base-framework/impl/backend_loader.cpp
@@ -24,6 +24,7 @@
 #include <spdlog/spdlog.h>
 
 #include <functional>
+#include <utility>
 
 #include <boost/dll/import.hpp>
 
@@ -64,7 +65,10 @@ std::shared_ptr<core::Backend> BackendLoader::load(const std::filesystem::path &
         SPDLOG_ERROR("Unable to load backend from " + backend_path.string());
         throw std::runtime_error("Couldn't load backend from path \"" + backend_path.string() + "\"");
     }
-    return result;
+    // The library with the backend code must stay loaded while the backend exists, even if the loader does not.
+    auto *const backend = result.get();
+    return std::shared_ptr<core::Backend>(
+        backend, [creator, result = std::move(result)](core::Backend *) mutable { result.reset(); });
 }
 
 
-- 
2.43.0


From 629687643d3cff83255d3305796aacd1d0b5d2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:21 +0000
Subject: [PATCH 34/51] fix: CPU backends remove populations and projections on
 request

---
 .../impl/backend.cpp                          | 37 +++++++++++++++++++
 .../knp/backends/cpu-multi-threaded/backend.h |  4 +-
 .../impl/backend.cpp                          | 37 +++++++++++++++++++
 .../backends/cpu-single-threaded/backend.h    |  4 +-
 4 files changed, 78 insertions(+), 4 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index f08809c..c2aa795 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -31,6 +31,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <functional>
 #include <unordered_map>
 #include <vector>
@@ -372,6 +373,42 @@ void MultiThreadedCPUBackend::load_all_populations(const std::vector<knp::core::
 }
 
 
+void MultiThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            projections_.begin(), projections_.end(),
+            [&uid](const ProjectionWrapper &wrapper)
+            { return std::visit([&uid](const auto &proj) { return proj.get_uid() == uid; }, wrapper.arg_); });
+        if (projections_.end() == removed)
+        {
+            continue;
+        }
+        projections_.erase(removed, projections_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
+void MultiThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            populations_.begin(), populations_.end(),
+            [&uid](const PopulationVariants &population)
+            { return std::visit([&uid](const auto &pop) { return pop.get_uid() == uid; }, population); });
+        if (populations_.end() == removed)
+        {
+            continue;
+        }
+        populations_.erase(removed, populations_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> MultiThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
index 68ed000..84a4c37 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/include/knp/backends/cpu-multi-threaded/backend.h
@@ -315,14 +315,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
index 40c8f12..8d8b19e 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
@@ -32,6 +32,7 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <vector>
 
 #include <boost/mp11.hpp>
@@ -186,6 +187,42 @@ void SingleThreadedCPUBackend::load_all_populations(const std::vector<knp::core:
 }
 
 
+void SingleThreadedCPUBackend::remove_projections(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            projections_.begin(), projections_.end(),
+            [&uid](const ProjectionWrapper &wrapper)
+            { return std::visit([&uid](const auto &proj) { return proj.get_uid() == uid; }, wrapper.arg_); });
+        if (projections_.end() == removed)
+        {
+            continue;
+        }
+        projections_.erase(removed, projections_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
+void SingleThreadedCPUBackend::remove_populations(const std::vector<knp::core::UID> &uids)
+{
+    for (const auto &uid : uids)
+    {
+        const auto removed = std::remove_if(
+            populations_.begin(), populations_.end(),
+            [&uid](const PopulationVariants &population)
+            { return std::visit([&uid](const auto &pop) { return pop.get_uid() == uid; }, population); });
+        if (populations_.end() == removed)
+        {
+            continue;
+        }
+        populations_.erase(removed, populations_.end());
+        get_message_endpoint().remove_receiver(uid);
+    }
+}
+
+
 std::vector<std::unique_ptr<knp::core::Device>> SingleThreadedCPUBackend::get_devices() const
 {
     std::vector<std::unique_ptr<knp::core::Device>> result;
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
index 5cbb49d..e346e30 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
+++ b/knp/backends/cpu/cpu-single-threaded-backend/include/knp/backends/cpu-single-threaded/backend.h
@@ -284,14 +284,14 @@ public:
      *
      * @param uids UIDs of projections to remove.
      */
-    void remove_projections(const std::vector<knp::core::UID> &uids) override {}
+    void remove_projections(const std::vector<knp::core::UID> &uids) override;
 
     /**
      * @brief Remove populations with given UIDs from the backend.
      *
      * @param uids UIDs of populations to remove.
      */
-    void remove_populations(const std::vector<knp::core::UID> &uids) override {}
+    void remove_populations(const std::vector<knp::core::UID> &uids) override;
 
 public:
     /**
-- 
2.43.0


From 46a015a8eada1ae7fcf43c11453ca0c23bcd4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:36 +0000
Subject: [PATCH 35/51] fix: CPU devices keep their identifier

---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp | 13 ++++++++++---
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 14 +++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index 4c0f8d2..3d50bd0 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -32,7 +32,7 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+static const core::UID ns_uid{false};
 
 
 /**
@@ -49,11 +49,17 @@ public:
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     cpu_name_ = "Unknown CPU " + std::to_string(cpu_num_);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)} {}
+CPU::CPU(CPU&& other)
+    : Device(std::move(other)),
+      cpu_num_{std::move(other.cpu_num_)},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -61,6 +67,7 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
     std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 363ae42..082da00 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -44,7 +44,7 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
+static const core::UID ns_uid{false};
 
 
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
@@ -55,11 +55,17 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 
     cpu_name_ = pcm_instance->getCPUBrandString() + " " + pcm_instance->getCPUFamilyModelString() + " " +
                 std::to_string(cpu_num);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(ns_uid)(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)} {}
+CPU::CPU(CPU&& other)
+    : Device(std::move(other)),
+      cpu_num_{std::move(other.cpu_num_)},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -67,6 +73,8 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
+    std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
     return *this;
-- 
2.43.0


From 9a501ec8138ee390c7e098be899486b930edeed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 36/51] fix: backends list the types they support

---
 knp/meta-library/include/knp/meta/stringify.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/meta-library/include/knp/meta/stringify.h b/knp/meta-library/include/knp/meta/stringify.h
index ebcc688..0948038 100644
--- a/knp/meta-library/include/knp/meta/stringify.h
+++ b/knp/meta-library/include/knp/meta/stringify.h
@@ -92,7 +92,7 @@ std::vector<size_t> get_supported_type_indexes()
     std::vector<size_t> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>([&result](auto i)
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>([&result](auto i)
                                                                                         { result.push_back(i); });
 
     return result;
@@ -115,7 +115,7 @@ std::vector<std::string> get_supported_type_names(const NamesType &type_names)
     std::vector<std::string> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>(
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>(
         [&type_names, &result](auto i) { result.push_back(std::get<i>(type_names)); });
 
     return result;
-- 
2.43.0


From 3ab41e12faf7b5f546c321b16ac36ab79ec616df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:36 +0000
Subject: [PATCH 37/51] fix: CPU backends drop receivers of entities replaced
 by a load

---
 .../include/knp/backends/cpu-library/init.h   | 73 +++++++++++++++++++
 .../impl/backend.cpp                          | 12 +++
 .../impl/backend.cpp                          | 12 +++
 3 files changed, 97 insertions(+)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h
index e2e9332..5fd774f 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/init.h
@@ -27,9 +27,11 @@
 
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <string>
 #include <tuple>
 #include <variant>
+#include <vector>
 
 
 /**
@@ -82,6 +84,77 @@ struct subscribe_stdp_projection<knp::synapse_traits::STDP<Rule, SynapseType>>
 };
 
 
+/**
+ * @brief Remove receivers of populations or projections that are not going to be held by a backend anymore.
+ *
+ * @details Messages for an entity that is not held are never unloaded, they would be received all at once if the entity
+ * were loaded again.
+ *
+ * @param held UIDs of entities held by the backend.
+ * @param loaded UIDs of entities to be loaded to the backend.
+ * @param message_endpoint message endpoint.
+ */
+inline void remove_unloaded_receivers(
+    const std::vector<core::UID> &held, const std::vector<core::UID> &loaded, knp::core::MessageEndpoint &message_endpoint)
+{
+    for (const auto &uid : held)
+    {
+        if (std::find(loaded.begin(), loaded.end(), uid) == loaded.end())
+        {
+            message_endpoint.remove_receiver(uid);
+        }
+    }
+}
+
+
+/**
+ * @brief Get UID of a population or a projection variant.
+ *
+ * @param entity population or projection.
+ *
+ * @return entity UID.
+ */
+template <class... Entities>
+core::UID get_entity_uid(const std::variant<Entities...> &entity)
+{
+    return std::visit([](const auto &arg) { return arg.get_uid(); }, entity);
+}
+
+
+/**
+ * @brief Get UID of a projection kept in a backend wrapper.
+ *
+ * @param wrapper projection wrapper.
+ *
+ * @return projection UID.
+ */
+template <class Wrapper>
+core::UID get_entity_uid(const Wrapper &wrapper)
+{
+    return get_entity_uid(wrapper.arg_);
+}
+
+
+/**
+ * @brief Get UIDs of populations or projections.
+ *
+ * @param entities container of entities.
+ *
+ * @return UIDs of the entities.
+ */
+template <class Container>
+std::vector<core::UID> get_entity_uids(const Container &entities)
+{
+    std::vector<core::UID> result;
+    result.reserve(entities.size());
+    for (const auto &entity : entities)
+    {
+        result.push_back(get_entity_uid(entity));
+    }
+    return result;
+}
+
+
 /**
  * @brief Initialize backend.
  * 
diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index c2aa795..aa9037e 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -331,6 +331,9 @@ void MultiThreadedCPUBackend::_step()
 void MultiThreadedCPUBackend::load_populations(const std::vector<PopulationVariants> &populations)
 {
     SPDLOG_DEBUG("Loading populations [{}]...", populations.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(populations_), knp::backends::cpu::get_entity_uids(populations),
+        get_message_endpoint());
     populations_.clear();
     populations_.reserve(populations.size());
 
@@ -345,6 +348,9 @@ void MultiThreadedCPUBackend::load_populations(const std::vector<PopulationVaria
 void MultiThreadedCPUBackend::load_projections(const std::vector<ProjectionVariants> &projections)
 {
     SPDLOG_DEBUG("Loading projections [{}]...", projections.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(projections_), knp::backends::cpu::get_entity_uids(projections),
+        get_message_endpoint());
     projections_.clear();
     projections_.reserve(projections.size());
 
@@ -360,6 +366,9 @@ void MultiThreadedCPUBackend::load_projections(const std::vector<ProjectionVaria
 void MultiThreadedCPUBackend::load_all_projections(const std::vector<knp::core::AllProjectionsVariant> &projections)
 {
     SPDLOG_DEBUG("Loading projections [{}]...", projections.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(projections_), knp::backends::cpu::get_entity_uids(projections),
+        get_message_endpoint());
     knp::meta::load_from_container<SupportedProjections>(projections, projections_);
     SPDLOG_DEBUG("All projections loaded.");
 }
@@ -368,6 +377,9 @@ void MultiThreadedCPUBackend::load_all_projections(const std::vector<knp::core::
 void MultiThreadedCPUBackend::load_all_populations(const std::vector<knp::core::AllPopulationsVariant> &populations)
 {
     SPDLOG_DEBUG("Loading populations [{}]...", populations.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(populations_), knp::backends::cpu::get_entity_uids(populations),
+        get_message_endpoint());
     knp::meta::load_from_container<SupportedPopulations>(populations, populations_);
     SPDLOG_DEBUG("All populations loaded.");
 }
diff --git a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
index 8d8b19e..a4653d6 100644
--- a/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-single-threaded-backend/impl/backend.cpp
@@ -145,6 +145,9 @@ void SingleThreadedCPUBackend::_step()
 void SingleThreadedCPUBackend::load_populations(const std::vector<PopulationVariants> &populations)
 {
     SPDLOG_DEBUG("Loading populations [{}]...", populations.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(populations_), knp::backends::cpu::get_entity_uids(populations),
+        get_message_endpoint());
     populations_.clear();
     populations_.reserve(populations.size());
 
@@ -159,6 +162,9 @@ void SingleThreadedCPUBackend::load_populations(const std::vector<PopulationVari
 void SingleThreadedCPUBackend::load_projections(const std::vector<ProjectionVariants> &projections)
 {
     SPDLOG_DEBUG("Loading projections [{}]...", projections.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(projections_), knp::backends::cpu::get_entity_uids(projections),
+        get_message_endpoint());
     projections_.clear();
     projections_.reserve(projections.size());
 
@@ -174,6 +180,9 @@ void SingleThreadedCPUBackend::load_projections(const std::vector<ProjectionVari
 void SingleThreadedCPUBackend::load_all_projections(const std::vector<knp::core::AllProjectionsVariant> &projections)
 {
     SPDLOG_DEBUG("Loading projections [{}]...", projections.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(projections_), knp::backends::cpu::get_entity_uids(projections),
+        get_message_endpoint());
     knp::meta::load_from_container<SupportedProjections>(projections, projections_);
     SPDLOG_DEBUG("All projections loaded.");
 }
@@ -182,6 +191,9 @@ void SingleThreadedCPUBackend::load_all_projections(const std::vector<knp::core:
 void SingleThreadedCPUBackend::load_all_populations(const std::vector<knp::core::AllPopulationsVariant> &populations)
 {
     SPDLOG_DEBUG("Loading populations [{}]...", populations.size());
+    knp::backends::cpu::remove_unloaded_receivers(
+        knp::backends::cpu::get_entity_uids(populations_), knp::backends::cpu::get_entity_uids(populations),
+        get_message_endpoint());
     knp::meta::load_from_container<SupportedPopulations>(populations, populations_);
     SPDLOG_DEBUG("All populations loaded.");
 }
-- 
2.43.0


From 17dc62606298c7a2cb884cfc6c142db8dd514c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 38/51] fix: Python attribute is_reset of AltAILIF parameters
 is is_reset

---
 knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
index f263c62..1a85a10 100644
--- a/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
+++ b/knp/python-framework/impl/neuron_traits/cpp/altai_lif.cpp
@@ -34,7 +34,7 @@ void export_altai_lif()
             "neuron receives a spike, the `potential` parameter takes a value by which the potential threshold is "
             "exceeded.")
         .add_property(
-            "is_reset", &alif_params::is_diff_,
+            "is_reset", &alif_params::is_reset_,
             "If `is_reset` flag is set to `true` and neuron potential exceeds its threshold value after the neuron "
             "receives a spike, the `potential` parameter takes a value of the `potential_reset_value` parameter.")
         .add_property(
-- 
2.43.0


From 6aac86cdb509678776e795a22b08b6258020989d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 39/51] fix: Python objects of other types are not taken for
 neuron and synapse parameters

---
 .../impl/base_framework/cpp/base_framework.cpp        | 11 -----------
 knp/python-framework/impl/core/cpp/common.h           | 11 -----------
 knp/python-framework/impl/core/cpp/population.h       |  3 +--
 knp/python-framework/impl/core/cpp/projection.h       |  3 +--
 4 files changed, 2 insertions(+), 26 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/base_framework.cpp b/knp/python-framework/impl/base_framework/cpp/base_framework.cpp
index 9b92de2..b5572d9 100644
--- a/knp/python-framework/impl/base_framework/cpp/base_framework.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/base_framework.cpp
@@ -29,17 +29,6 @@
 #include "exports.h"
 
 
-template <typename T>
-void register_direct_converter()
-{
-    // Need to register converter.
-    // Without this extract from the different module cannot convert Python object to C++ object.
-    py::converter::registry::insert(
-        [](PyObject *p) { return static_cast<void *>(p); }, py::type_id<T>(),
-        &py::converter::registered_pytype_direct<T>::get_pytype);
-}
-
-
 PyObject *PyInit__knp_python_framework_core();
 
 BOOST_PYTHON_MODULE(KNP_FULL_LIBRARY_NAME)
diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index 4db4b8a..189ce19 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -69,17 +69,6 @@ namespace core = knp::core;
 namespace detail
 {
 
-template <typename T>
-void register_direct_converter()
-{
-    // Need to register converter.
-    // Without this extract from the different module can't convert Python object to C++ object.
-    py::converter::registry::insert(
-        [](PyObject *p) { return static_cast<void *>(p); }, py::type_id<T>(),
-        &py::converter::registered_pytype_direct<T>::get_pytype);
-}
-
-
 template <typename F>
 struct function_traits : public function_traits<decltype(&F::operator())>
 {
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index 583878f..1bb7661 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -83,8 +83,7 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 
 namespace nt = knp::neuron_traits;
 
-#define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type)                     \
-    detail::register_direct_converter<nt::neuron_parameters<knp::neuron_traits::neuron_type>>(); \
+#define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type) \
     py::implicitly_convertible<core::Population<nt::neuron_type>, core::AllPopulationsVariant>();
 
 
diff --git a/knp/python-framework/impl/core/cpp/projection.h b/knp/python-framework/impl/core/cpp/projection.h
index 3c963a2..0c825f3 100644
--- a/knp/python-framework/impl/core/cpp/projection.h
+++ b/knp/python-framework/impl/core/cpp/projection.h
@@ -90,8 +90,7 @@ void projection_synapses_add_wrapper(
 
 namespace st = knp::synapse_traits;
 
-#define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type)                       \
-    detail::register_direct_converter<st::synapse_parameters<knp::synapse_traits::synapse_type>>(); \
+#define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type) \
     py::implicitly_convertible<core::Projection<st::synapse_type>, core::AllProjectionsVariant>();
 
 
-- 
2.43.0


From 5a03622e59d63265da6aee810033c6c52653369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 40/51] fix: Python populations check neuron indexes

---
 knp/python-framework/impl/core/cpp/common.h       | 12 ++++++++++++
 knp/python-framework/impl/core/cpp/population.cpp |  4 +---
 knp/python-framework/impl/core/cpp/population.h   |  9 +++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index 189ce19..c198710 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -129,6 +129,18 @@ boost::python::object adapt_unique(std::unique_ptr<T> (C::*fn)(Args...))
 }
 
 
+// Python stops iteration and reports wrong indexes by `IndexError`.
+template <typename Container>
+void check_index(const Container &container, size_t index)
+{
+    if (index >= container.size())
+    {
+        PyErr_SetString(PyExc_IndexError, "Index is out of range.");
+        py::throw_error_already_set();
+    }
+}
+
+
 inline std::string get_py_class_name(const py::object &obj_class)
 {
     const std::string class_name = boost::python::extract<std::string>(obj_class.attr("__class__").attr("__name__"));
diff --git a/knp/python-framework/impl/core/cpp/population.cpp b/knp/python-framework/impl/core/cpp/population.cpp
index 392fb4e..db30cd1 100644
--- a/knp/python-framework/impl/core/cpp/population.cpp
+++ b/knp/python-framework/impl/core/cpp/population.cpp
@@ -75,9 +75,7 @@
             .def("__iter__", py::iterator<core::Population<nt::neuron_type>>(), "Get an iterator of the population.") \
             .def("__len__", &core::Population<nt::neuron_type>::size, "Count number of neurons in the population.")   \
             .def(                                                                                                     \
-                "__getitem__",                                                                                        \
-                static_cast<core::Population<nt::neuron_type>::NeuronParameters &(                                    \
-                    core::Population<nt::neuron_type>::*)(size_t)>(&core::Population<nt::neuron_type>::operator[]),   \
+                "__getitem__", &population_get_neuron<nt::neuron_type>,                                               \
                 py::return_internal_reference<>(), "Get parameter values of a neuron with the given index.")          \
             .add_property(                                                                                            \
                 "uid",                                                                                                \
diff --git a/knp/python-framework/impl/core/cpp/population.h b/knp/python-framework/impl/core/cpp/population.h
index 1bb7661..38c6b8c 100644
--- a/knp/python-framework/impl/core/cpp/population.h
+++ b/knp/python-framework/impl/core/cpp/population.h
@@ -81,6 +81,15 @@ void population_neurons_add_wrapper(core::Population<ElemType> &population, cons
 };
 
 
+template <typename ElemType>
+typename core::Population<ElemType>::NeuronParameters &population_get_neuron(
+    core::Population<ElemType> &population, size_t index)
+{
+    check_index(population, index);
+    return population[index];
+}
+
+
 namespace nt = knp::neuron_traits;
 
 #define INSTANCE_POPULATION_CONVERTER(n, template_for_instance, neuron_type) \
-- 
2.43.0


From 8f265fa23333ccf960289b566fd4ccc3ba68c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 41/51] fix: Python projections return synapses by index

---
 knp/python-framework/impl/core/cpp/projection.cpp | 5 +----
 knp/python-framework/impl/core/cpp/projection.h   | 8 ++++++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/projection.cpp b/knp/python-framework/impl/core/cpp/projection.cpp
index a8add8d..97f498a 100644
--- a/knp/python-framework/impl/core/cpp/projection.cpp
+++ b/knp/python-framework/impl/core/cpp/projection.cpp
@@ -107,10 +107,7 @@ py::class_<core::Synapse>(
             .def("__iter__", py::iterator<core::Projection<st::synapse_type>>(), "Get an iterator of the projection.") \
             .def("__len__", &core::Projection<st::synapse_type>::size, "Count number of synapses in the projection.")  \
             .def(                                                                                                      \
-                "__getitem__",                                                                                         \
-                static_cast<core::Projection<st::synapse_type>::Synapse &(                                             \
-                    core::Projection<st::synapse_type>::*)(size_t)>(&core::Projection<st::synapse_type>::operator[]),  \
-                py::return_internal_reference<>(),                                                                     \
+                "__getitem__", &projection_get_synapse<st::synapse_type>,                                              \
                 "Get parameter values of a synapse with the given index.");  // NOLINT
 
 
diff --git a/knp/python-framework/impl/core/cpp/projection.h b/knp/python-framework/impl/core/cpp/projection.h
index 0c825f3..5c5c2a4 100644
--- a/knp/python-framework/impl/core/cpp/projection.h
+++ b/knp/python-framework/impl/core/cpp/projection.h
@@ -88,6 +88,14 @@ void projection_synapses_add_wrapper(
 };
 
 
+template <typename ElemType>
+typename core::Projection<ElemType>::Synapse projection_get_synapse(core::Projection<ElemType> &projection, size_t index)
+{
+    check_index(projection, index);
+    return projection[index];
+}
+
+
 namespace st = knp::synapse_traits;
 
 #define INSTANCE_PROJECTION_CONVERTER(n, template_for_instance, synapse_type) \
-- 
2.43.0


From df2c02a92f3eccc6734626fa437cf6cbff20676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 42/51] fix: Python impact messages give access to their
 impacts

---
 .../impl/core/cpp/synaptic_impact_message.cpp                 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
index 308a5bc..5b29e25 100644
--- a/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
+++ b/knp/python-framework/impl/core/cpp/synaptic_impact_message.cpp
@@ -41,6 +41,10 @@ void export_synaptic_impact()
             "Index of the postsynaptic neuron connected to the synapse.");
 
 
+    py::class_<std::vector<msg::SynapticImpact>>("SynapticImpacts", "List of synaptic impacts.")
+        .def(py::vector_indexing_suite<std::vector<msg::SynapticImpact>>());
+
+
     py::class_<msg::SynapticImpactMessage>("SynapticImpactMessage", "Structure of the synaptic impact message.")
         .def_readwrite("header", &msg::SynapticImpactMessage::header_, "Message header.")
         .def_readwrite(
-- 
2.43.0


From ec625f779cee69c05684f5f5fbc4bd0adeee5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 43/51] fix: Python attribute isi_status can be read and set

---
 .../impl/neuron_traits/cpp/resource_stdp_blifat.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp b/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp
index 27f7036..f4620f8 100644
--- a/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp
+++ b/knp/python-framework/impl/neuron_traits/cpp/resource_stdp_blifat.cpp
@@ -19,6 +19,16 @@ void export_resource_stdp_blifat()
     using bn_params = knp::neuron_traits::neuron_parameters<knp::neuron_traits::BLIFATNeuron>;
 
 
+    py::enum_<knp::neuron_traits::ISIPeriodType>("ISIPeriodType")
+        // Neuron is forced.
+        .value("IS_FORCED", knp::neuron_traits::ISIPeriodType::is_forced)
+        // Neuron receives the first non-forced spike.
+        .value("PERIOD_STARTED", knp::neuron_traits::ISIPeriodType::period_started)
+        // Neuron continues to receive non-forced spikes.
+        .value("PERIOD_CONTINUED", knp::neuron_traits::ISIPeriodType::period_continued)
+        // Sequence of spikes has ended.
+        .value("NOT_IN_PERIOD", knp::neuron_traits::ISIPeriodType::not_in_period);
+
     py::class_<rsbn_params, py::bases<bn_params>>(
         "SynapticResourceSTDPBLIFATNeuronParameters",
         "Structure for BLIFAT neuron parameters with support of synaptic resource-based STDP.")
-- 
2.43.0


From 67bbd75a8a3fbf89606dfd77516628bd7c7cb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 44/51] fix: Python networks return their populations and
 projections

---
 .../impl/base_framework/cpp/network.cpp               |  3 +++
 .../impl/base_framework/cpp/network_utility.h         | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/knp/python-framework/impl/base_framework/cpp/network.cpp b/knp/python-framework/impl/base_framework/cpp/network.cpp
index 18cbfdc..5e2a130 100644
--- a/knp/python-framework/impl/base_framework/cpp/network.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/network.cpp
@@ -26,6 +26,9 @@
 
 void export_network()
 {
+    py::to_python_converter<knp::core::AllPopulationsVariant, variant_into_python<knp::core::AllPopulationsVariant>>();
+    py::to_python_converter<knp::core::AllProjectionsVariant, variant_into_python<knp::core::AllProjectionsVariant>>();
+
     py::class_<knp::framework::Network>(
         "Network", "The Network class is a definition of a neural network that contains populations and projections.")
         .def(py::init<const knp::core::UID&>())
diff --git a/knp/python-framework/impl/base_framework/cpp/network_utility.h b/knp/python-framework/impl/base_framework/cpp/network_utility.h
index 4d40e19..7dd2e68 100644
--- a/knp/python-framework/impl/base_framework/cpp/network_utility.h
+++ b/knp/python-framework/impl/base_framework/cpp/network_utility.h
@@ -26,6 +26,17 @@
 #include <knp/framework/network.h>
 
 #include <utility>
+#include <variant>
+
+
+template <typename Variant>
+struct variant_into_python
+{
+    static PyObject *convert(const Variant &entity)
+    {
+        return std::visit([](const auto &value) { return py::incref(py::object(value).ptr()); }, entity);
+    }
+};
 
 
 void network_add_projection_variant(knp::framework::Network &self, knp::core::AllProjectionsVariant proj)
-- 
2.43.0


From e9893c54b5bffc6bdd1bc8c3eadba10583b5569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 45/51] fix: Python lists are accepted where the library takes
 lists

---
 knp/python-framework/impl/core/cpp/common.h | 35 +++++++++++++++++++++
 knp/python-framework/impl/core/cpp/core.cpp |  4 +++
 2 files changed, 39 insertions(+)

diff --git a/knp/python-framework/impl/core/cpp/common.h b/knp/python-framework/impl/core/cpp/common.h
index c198710..e7c5452 100644
--- a/knp/python-framework/impl/core/cpp/common.h
+++ b/knp/python-framework/impl/core/cpp/common.h
@@ -52,6 +52,7 @@
 #endif
 
 #include <memory>
+#include <set>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -115,6 +116,40 @@ std::vector<T> py_iterable_to_vector(const py::object &iterable)
 }
 
 
+// Converts Python lists, tuples and sets to C++ containers.
+template <typename Container>
+struct container_from_python
+{
+    using Value = typename Container::value_type;
+
+    container_from_python()
+    {
+        py::converter::registry::push_back(&convertible, &construct, py::type_id<Container>());
+    }
+
+    static void *convertible(PyObject *obj)
+    {
+        if (!PyList_Check(obj) && !PyTuple_Check(obj) && !PyAnySet_Check(obj)) return nullptr;
+        const py::object values(py::handle<>(py::borrowed(obj)));
+        const py::stl_input_iterator<py::object> end;
+        for (py::stl_input_iterator<py::object> value(values); value != end; ++value)
+        {
+            if (!py::extract<Value>(*value).check()) return nullptr;
+        }
+        return obj;
+    }
+
+    static void construct(PyObject *obj, py::converter::rvalue_from_python_stage1_data *data)
+    {
+        const py::object sequence(py::handle<>(py::borrowed(obj)));
+        void *storage =
+            reinterpret_cast<py::converter::rvalue_from_python_storage<Container> *>(data)->storage.bytes;
+        new (storage) Container(py::stl_input_iterator<Value>(sequence), py::stl_input_iterator<Value>());
+        data->convertible = storage;
+    }
+};
+
+
 // Adapter a member function that returns a unique_ptr to
 // a python function object that returns a raw pointer but
 // explicitly passes ownership to Python.
diff --git a/knp/python-framework/impl/core/cpp/core.cpp b/knp/python-framework/impl/core/cpp/core.cpp
index aca01df..8009aa2 100644
--- a/knp/python-framework/impl/core/cpp/core.cpp
+++ b/knp/python-framework/impl/core/cpp/core.cpp
@@ -74,6 +74,10 @@ BOOST_PYTHON_MODULE(KNP_FULL_LIBRARY_NAME)
 
     py::register_ptr_to_python<std::shared_ptr<knp::core::Backend>>();
 
+    container_from_python<std::vector<core::UID>>();
+    container_from_python<std::set<core::UID>>();
+    container_from_python<std::vector<size_t>>();
+
     export_backend();
     py::class_<knp::framework::BackendLoader>(
         "BackendLoader", "The BackendLoader class is a definition of a backend loader.")
-- 
2.43.0


From 911501b9adc613b8d25fb8bcaed7cb8b95bcfa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 46/51] fix: Python networks of models and channels of
 executors keep their owners

---
 knp/python-framework/impl/base_framework/cpp/model.cpp          | 2 +-
 knp/python-framework/impl/base_framework/cpp/model_executor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/python-framework/impl/base_framework/cpp/model.cpp b/knp/python-framework/impl/base_framework/cpp/model.cpp
index cbe1ab9..e7408c1 100644
--- a/knp/python-framework/impl/base_framework/cpp/model.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model.cpp
@@ -33,7 +33,7 @@ void export_model()
         // .add_property("tags", &knp::framework::Model::get_tags)
         .add_property(
             "network",
-            py::make_function(&get_network_from_model, py::return_value_policy<py::reference_existing_object>()),
+            py::make_function(&get_network_from_model, py::return_internal_reference<>()),
             &set_network_to_model, "Network associated with model.")
         .add_property("input_channels", &get_model_input_channels, "Return all input channels UIDs.")
         .add_property("output_channels", &get_model_output_channels, "Return all output channels UIDs.");
diff --git a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
index 1f049f7..eb4f330 100644
--- a/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
+++ b/knp/python-framework/impl/base_framework/cpp/model_executor.cpp
@@ -39,6 +39,6 @@ void export_model_executor()
         .def("stop_learning", &knp::framework::ModelExecutor::stop_learning, "Lock synapse weights.")
         .def("get_backend", &knp::framework::ModelExecutor::get_backend, "Get reference of backend object.")
         .def(
-            "get_output_channel", &get_output_channel, py::return_value_policy<py::reference_existing_object>(),
+            "get_output_channel", &get_output_channel, py::return_internal_reference<>(),
             "Get output channel reference.");
 }
-- 
2.43.0


From fcfe2bcfa3181d424f0c3079844185b22fe21817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 47/51] fix: backend libraries stay loaded while objects made
 by their code can exist

---
 knp/base-framework/impl/backend_loader.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/impl/backend_loader.cpp b/knp/base-framework/impl/backend_loader.cpp
index be24bd4..e5fbea0 100644
--- a/knp/base-framework/impl/backend_loader.cpp
+++ b/knp/base-framework/impl/backend_loader.cpp
@@ -24,7 +24,8 @@
 #include <spdlog/spdlog.h>
 
 #include <functional>
-#include <utility>
+#include <mutex>
+#include <vector>
 
 #include <boost/dll/import.hpp>
 
@@ -49,6 +50,14 @@ std::function<BackendLoader::BackendCreateFunction> BackendLoader::make_creator(
 
     SPDLOG_DEBUG("Created backend creator.");
 
+    // Backends and the objects they made (endpoints, for example) can outlive loaders: libraries are never unloaded.
+    static std::mutex mutex;
+    static auto &loaded_libraries = *new std::vector<std::function<BackendCreateFunction>>;
+    {
+        const std::lock_guard lock(mutex);
+        loaded_libraries.push_back(creator);
+    }
+
     creators_[backend_path.string()] = creator;
 
     return creator;
@@ -65,10 +74,7 @@ std::shared_ptr<core::Backend> BackendLoader::load(const std::filesystem::path &
         SPDLOG_ERROR("Unable to load backend from " + backend_path.string());
         throw std::runtime_error("Couldn't load backend from path \"" + backend_path.string() + "\"");
     }
-    // The library with the backend code must stay loaded while the backend exists, even if the loader does not.
-    auto *const backend = result.get();
-    return std::shared_ptr<core::Backend>(
-        backend, [creator, result = std::move(result)](core::Backend *) mutable { result.reset(); });
+    return result;
 }
 
 
-- 
2.43.0


From 3b8dfa89036e934350168a17eb040598a272b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:38 +0000
Subject: [PATCH 48/51] fix: answers of Python run predicates are used after
 they are released

---
 knp/python-framework/impl/core/cpp/backend_wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/knp/python-framework/impl/core/cpp/backend_wrapper.h b/knp/python-framework/impl/core/cpp/backend_wrapper.h
index 857011e..43c7cfd 100644
--- a/knp/python-framework/impl/core/cpp/backend_wrapper.h
+++ b/knp/python-framework/impl/core/cpp/backend_wrapper.h
@@ -207,7 +207,7 @@ void export_backend()
                         [&run_predicate](core::Step step)
                         {
                             auto res = py::call<py::object>(run_predicate.ptr(), step);
-                            return py::extract<bool>(res);
+                            return py::extract<bool>(res)();
                         });
                 }),
             "Start network execution on the backend.")
@@ -220,12 +220,12 @@ void export_backend()
                         [&pre_step](core::Step step)
                         {
                             auto res = py::call<py::object>(pre_step.ptr(), step);
-                            return py::extract<bool>(res);
+                            return py::extract<bool>(res)();
                         },
                         [&post_step](core::Step step)
                         {
                             auto res = py::call<py::object>(post_step.ptr(), step);
-                            return py::extract<bool>(res);
+                            return py::extract<bool>(res)();
                         });
                 }),
             "Start network execution on the backend.")
-- 
2.43.0


From d82d212482e8381760d278ead0db6b6419a13e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:31 +0000
Subject: [PATCH 49/51] fix: position_network is declared as it is defined

---
 .../include/knp/framework/visualizer/visualize_network.h       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/include/knp/framework/visualizer/visualize_network.h b/knp/base-framework/include/knp/framework/visualizer/visualize_network.h
index f0bba76..dd253c7 100644
--- a/knp/base-framework/include/knp/framework/visualizer/visualize_network.h
+++ b/knp/base-framework/include/knp/framework/visualizer/visualize_network.h
@@ -198,7 +198,8 @@ KNP_DECLSPEC std::vector<std::vector<int>> divide_graph_by_connectivity(const Ne
  * to fit inside @p screen_size with the requested @p margin.
  */
 KNP_DECLSPEC std::vector<cv::Point2i> position_network(
-    const NetworkGraph &graph, const std::vector<int> &nodes, cv::Size screen_size, int margin, int num_iterations);
+    const NetworkGraph &graph, const std::vector<int> &nodes, const cv::Size &screen_size, int margin,
+    int num_iterations);
 
 
 /**
-- 
2.43.0


From e38c46152ef26edcf5974c9164b352f8ea2479b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:41 +0000
Subject: [PATCH 50/51] fix: network graphs with projections that lead out of
 the network can be divided and printed

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index 97cef63..dcfdbf7 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -159,6 +159,7 @@ AdjacencyList build_adjacency_list(const NetworkGraph &graph)
     adj_list.resize(graph.nodes_.size() + 1);
     for (const auto &edge : graph.edges_)
     {
+        if (edge.index_to_ < 0) continue;  // The target population is not in the network.
         int index = edge.index_from_;
         if (index < 0) index = static_cast<int>(graph.nodes_.size());
         adj_list[index].push_back(edge.index_to_);
-- 
2.43.0


From 6dcdfe1939fc5beaf77b9d95d66fe4d9452d55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:41 +0000
Subject: [PATCH 51/51] fix: subgraph drawings show the names of their own
 populations

---
 knp/base-framework/impl/visualizer/visualize_network.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/visualizer/visualize_network.cpp b/knp/base-framework/impl/visualizer/visualize_network.cpp
index dcfdbf7..cc317b8 100644
--- a/knp/base-framework/impl/visualizer/visualize_network.cpp
+++ b/knp/base-framework/impl/visualizer/visualize_network.cpp
@@ -269,7 +269,7 @@ cv::Mat draw_annotated_subgraph(
         cv::circle(
             out_img, {static_cast<int>(point.x), static_cast<int>(point.y)}, params.node_radius, params.node_color, -1);
         cv::Point2i text_start = point;
-        std::string name = graph.nodes_[i].name_;
+        std::string name = graph.nodes_[nodes[i]].name_;
         int baseline = 0;
         auto text_size = cv::getTextSize(name, cv::FONT_HERSHEY_SIMPLEX, 0.7, 2, &baseline);
         text_start.x = std::max(params.text_margin, text_start.x - text_size.width / 2);
-- 
2.43.0

