#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CL="knp/core-library/"; BF="knp/base-framework/"; CPU="knp/backends/cpu/"

p("B01","Bus delivers every message once, intact, in order, to exactly its subscribers",
 "A message sent through any endpoint of a bus is, after the bus has routed and the receiving endpoint has received, present exactly once in every subscription of that endpoint which names its sender and message type, with sender, time and payload unchanged, and in no other subscription. Messages of one sender arrive in the order they were sent, however sends, routing rounds and receives are interleaved (on the CPU bus also from several threads) and whichever bus implementation is used. Destroying or adding endpoints never loses, duplicates or redirects messages for the endpoints that remain.",
 ["histories","inputs","configurations"],
 "for all numbers of endpoints, subscriptions and senders, all interleavings of send / route / receive / unload / endpoint creation and destruction, also by several threads at once (one thread at a time receiving through an endpoint), all message contents, both bus implementations",
 "The tests send one or two fixed messages between two endpoints with one routing call; no test has several routing rounds before a receive, several subscribers per endpoint, empty payloads, endpoint death or mixed message types in flight.",
 [CL+"impl/message_bus.cpp",CL+"impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp",CL+"impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h",CL+"impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp",CL+"impl/message_bus_zmq_impl/message_endpoint_zmq_impl.cpp",CL+"impl/message_endpoint.cpp"],
 [("collect sent messages then route one by one",CL+"impl/message_bus_cpu_impl/message_bus_cpu_impl.cpp: update, step"),("filter by subscription on receipt",CL+"impl/message_endpoint.cpp: receive_message"),("ZMQ router/publish pair",CL+"impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp: step")],
 [("outbox","messages sent but not yet routed",CL+"impl/message_bus_cpu_impl/message_endpoint_cpu_impl.h"),("inbox","messages routed to an endpoint but not received",CL+"impl/message_bus_cpu_impl/message_bus_cpu_impl.h"),("subscriptions","per (type, receiver) sender set and stored messages",CL+"include/knp/core/message_endpoint.h")],
 ["MessageEndpoint::unload_messages","MessageBus::route_messages","MessageEndpoint::receive_all_messages"])

p("B02","Subscriptions change exactly as requested and affect nobody else",
 "Subscribing an entity creates one subscription per message type and repeated subscribing merges the sender lists without losing stored messages; unsubscribing removes exactly that one subscription and reports whether it existed; removing a receiver removes all of its subscriptions and none of another receiver. Reading messages out of a subscription returns everything it stored and leaves it empty, while all other subscriptions keep theirs. After any history of these calls a message is stored for a receiver only if that receiver is subscribed to its sender at that time.",
 ["histories","inputs"],
 "for all sequences of subscribe, unsubscribe, remove-receiver, add/remove sender, read-out and message traffic over any number of receivers, senders and message types",
 "Tests subscribe once and unsubscribe once; no test removes a receiver that holds subscriptions of several types, merges sender lists, or checks bystander subscriptions.",
 [CL+"impl/message_endpoint.cpp",CL+"include/knp/core/subscription.h",CL+"include/knp/core/message_endpoint.h",CL+"impl/subscription.cpp"],
 [("keyed subscription map",CL+"impl/message_endpoint.cpp: subscribe, unsubscribe, remove_receiver"),("sender set of a subscription",CL+"include/knp/core/subscription.h")],
 None,["MessageEndpoint::get_endpoint_subscriptions","MessageEndpoint::unload_messages","Subscription getters"])

p("B03","Messages survive encoding and decoding unchanged",
 "Packing any spike or synaptic-impact message into its binary form and unpacking it yields a message equal in every field: sender, time, indexes in order, connected populations, forcing flag, and for every impact its connection, value, synapse kind and neuron indexes. Writing a message to a text stream and reading it back yields an equal message. Two messages that differ in any field are never reported equal.",
 ["inputs"],
 "for all messages: any identifiers, times up to 64 bits, empty and long payloads, all synapse kinds, boundary index values",
 "Tests encode one short fixed message of each kind, which cannot show that every field, size and boundary value survives.",
 [CL+"impl/messaging/message_envelope.cpp",CL+"impl/messaging/spike_message.cpp",CL+"impl/messaging/synaptic_impact_message.cpp",CL+"impl/messaging/fbs/message_envelope.fbs",CL+"impl/message_header.cpp"],
 [("envelope pack/extract",CL+"impl/messaging/message_envelope.cpp"),("stream operators",CL+"impl/messaging/spike_message.cpp, synaptic_impact_message.cpp")],
 None,["pack_to_envelope/extract_from_envelope","operator<< / operator>>","operator=="])

p("C01","A projection's lookups always agree with its contents",
 "After any history of adding connections, removing one, removing by predicate, by source or by target neuron, and clearing, the stored connections are exactly those added and not removed, in order of addition, with unchanged parameters. Looking up connections by source or by target neuron returns precisely the positions of the current connections with that source or target, and the number of connections reported as added or removed by each call is the true number. Iteration and indexed access show the same contents, and copies and moved-to projections carry them unchanged and independently.",
 ["histories","inputs"],
 "for all sequences of add / remove one / remove if / remove by source / by target / disconnect / clear / lookup, over all synapse kinds and all connection multigraphs",
 "Tests build one projection, apply one removal and count; a stale lookup table after a particular order of lookups and removals never shows.",
 [CL+"impl/projection.cpp",CL+"include/knp/core/projection.h"],
 [("lazy lookup index with validity flag",CL+"impl/projection.cpp: reindex, find_synapses"),("removal operations",CL+"impl/projection.cpp: remove_*")],
 [("parameters","ordered connection list",CL+"include/knp/core/projection.h"),("index","lookup table by source and target neuron and its validity",CL+"include/knp/core/projection.h")],
 ["Projection public interface"])

p("C02","Populations keep exactly the neurons they were given",
 "After any history of adding and removing neurons, a population holds exactly the neurons added and not removed, in order and with all their parameters unchanged, and its size equals their number. Copies keep the identifier and contents and are independent of the original. Removing neurons by index, one or many at once and in any order, removes those neurons and no others.",
 ["histories","inputs"],
 "for all sequences of add, remove by index, remove many, replace and copy, for all neuron kinds and sizes",
 "Tests remove a single index list once; order preservation, repeated removal and boundary indexes are not reached.",
 [CL+"impl/population.cpp",CL+"include/knp/core/population.h"],
 [("generator-driven add",CL+"impl/population.cpp: add_neurons"),("removal",CL+"impl/population.cpp: remove_neurons*, remove_neuron")],
 None,["Population public interface"])

p("C03","A network is a faithful keyed collection of populations and projections",
 "After any history of adding and removing, a network holds exactly the populations and projections added and not removed, each retrievable by its identifier with unchanged contents and kind, the counts agree, and asking for an absent identifier fails rather than returning something else. Adding a second population or projection under an identifier that is already present is rejected and changes nothing. A model accepts an input or output channel only for a projection or population that its network contains, and keeps every accepted connection.",
 ["histories","inputs"],
 "for all sequences of add / get / remove / existence queries / channel registrations for all neuron and synapse kinds, through every way of adding",
 "Tests add one population and one projection and remove them; collisions and bystanders of removal are not explored.",
 [BF+"impl/network.cpp",BF+"include/knp/framework/network.h",BF+"impl/model.cpp",BF+"include/knp/framework/model.h"],
 [("lookup by UID over variants",BF+"impl/network.cpp"),("channel maps",BF+"impl/model.cpp")],
 None,["Network and Model public interface"])

p("E01","Backends initialise once, count steps exactly and stop cleanly",
 "A run initialises a backend before its first step and never again until it is explicitly uninitialised; each executed step advances the step counter by exactly one and the counter keeps its value between runs. A run ends as soon as a before-step or after-step condition is false or a stop is requested, with no step executed after that, and it reports not-running afterwards also when a condition or a step throws; a later run then works again. Devices keep their identifiers from one listing to the next, and selecting devices by identifier selects exactly the requested devices or reports failure.",
 ["histories","fault_sequences"],
 "for all sequences of start (three forms), stop, init/uninit, with conditions and steps that return, refuse, stop or throw at any point",
 "Tests run one loop with one terminating predicate; exceptions, restart, stop inside callbacks and uninit/restart are not covered.",
 [CL+"impl/backend.cpp",CL+"include/knp/core/backend.h","knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp","knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp"],
 [("start loops and started flag",CL+"impl/backend.cpp: pre_start, start"),("initialised flag",CL+"impl/backend.cpp: _uninit, pre_start"),("step counter",CL+"include/knp/core/backend.h: gad_step")],
 [("running","whether a run is in progress",CL+"include/knp/core/backend.h"),("initialized","whether initialisation happened",CL+"include/knp/core/backend.h"),("step","number of executed steps",CL+"include/knp/core/backend.h")],
 ["Backend::start/stop/running/get_step, callbacks"])

p("E02","Each spike crosses each synapse once, after exactly its delay",
 "When a neuron or input spikes at a step, every connection leaving it delivers exactly one impact to its own target neuron, carrying that connection's current weight and kind, exactly its delay later; a neuron that is not a source of the spike receives nothing. Impacts of several spikes, connections, and spike sources that fall on the same step all arrive, none is merged away, lost or repeated, whatever the order in which earlier impacts were scheduled. A population receives impacts only from projections that target it.",
 ["histories","inputs","configurations"],
 "for all connection multigraphs, weights, kinds, delays of at least one step, spike histories of any length and numbers of simultaneous spike sources, on both processor backends",
 "Tests run one or two neurons with fixed delay and compare one spike list; overlapping delays, multi-edges and several senders are not explored.",
 [CPU+"cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_dispatcher.h",CPU+"cpu-library/include/knp/backends/cpu-library/projections.h",CPU+"cpu-library/include/knp/backends/cpu-library/init.h"],
 [("future message queue keyed by arrival step","delta_impl.h: calculate_delta_synapse_projection_data"),("subscription of projections and populations","init.h")],
 [("queue","impacts scheduled per future step","delta_impl.h: message queue")],
 ["SynapticImpactMessage traffic on the bus, neuron state"])

p("E03","BLIFAT neurons follow their step equations exactly",
 "At every step each neuron decays its potential, thresholds and conductances, adds the received impacts according to their kind, respects its activity and blocking periods, minimum potential and bursting phase, and fires exactly when its potential reaches its total threshold outside refractoriness. A firing neuron resets its potential and counters and appears exactly once in that step's spike list; a neuron that does not fire does not appear. Neurons do not influence each other except through connections.",
 ["histories","inputs"],
 "for all neuron parameter sets, impact sequences (all synapse kinds, several per step, forced ones) and step counts, within exact arithmetic",
 "Tests drive a single default neuron in a loop and compare spike times; refractory, blocking, bursting, dynamic threshold and inhibitory paths are mostly unvisited.",
 [CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_dispatcher.h",CPU+"cpu-library/include/knp/backends/cpu-library/populations.h","knp/neuron-traits-library/include/knp/neuron-traits/blifat.h"],
 [("pre-impact decay, impact application, post-impact firing","blifat_impl.h")],
 [("neuron state","potential, thresholds, counters","blifat.h")],
 ["Backend population iterators after each step","SpikeMessage traffic"])

p("E04","AltAI and plain LIF neurons follow their step equations exactly",
 "At every step each AltAI neuron applies saving or resetting, leakage with optional sign reversal, received impacts, and fires or resets at its activation and negative thresholds in the mode its flags select, with random-free results identical for equal inputs; each plain LIF neuron decays, integrates and fires by its own equations. A spiking neuron appears exactly once in that step's spike list and no other does. The order in which excitatory, inhibitory and dopamine impacts of one step arrive does not change the outcome.",
 ["histories","inputs"],
 "for all flag combinations, thresholds, reset values, leaks, impact sequences and step counts",
 "Tests cover a handful of flag combinations with one neuron each.",
 [CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_impl.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_dispatcher.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/lif/lif_impl.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/lif/lif_dispatcher.h","knp/neuron-traits-library/include/knp/neuron-traits/altai_lif.h"],
 [("leak / integrate / fire / reset","altai_impl.h, lif_impl.h")],
 None,["Backend population iterators after each step","SpikeMessage traffic"])

p("E05","The multi-threaded backend computes the same network as single-threaded one",
 "For any network both backends support, loaded and driven the same way, the multi-threaded backend emits at every step the same set of spikes per population and the same impacts per projection, and holds the same neuron states, as the single-threaded one. The result does not depend on the number of worker threads, on how populations are partitioned among them, or on the schedule.",
 ["schedules","configurations","inputs"],
 "for all networks of supported kinds, all input histories, all thread counts and partition sizes, all schedules",
 "Tests run the multi-threaded backend on one small population that fits into one partition.",
 [CPU+"cpu-multi-threaded-backend/impl/backend.cpp",CPU+"cpu-library/include/knp/backends/cpu-library/populations.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h"],
 [("partitioned population and projection calculation","cpu-multi-threaded-backend/impl/backend.cpp"),("barrier between phases","backend.cpp: calculation_pool_->join")],
 None,["spike and impact traffic, population iterators"])

p("T01","The thread pool runs every task exactly once and joins only when all are done",
 "Every task handed to the pool, also by another task, is executed exactly once, by a worker or by a thread that waits for the pool; handing over does not wait for tasks, and waiting for the pool returns only after every task handed over before has finished; the pool is then usable again. No schedule of submitters, workers and waiters deadlocks or loses a wake-up, and destroying the pool ends all its workers. Effects of finished tasks are visible after the wait.",
 ["schedules"],
 "for all interleavings of posting, execution, waiting and destruction for any number of workers and tasks",
 "The tests run the pool under whatever schedule the operating system picks; lost wake-ups and early returns need particular interleavings.",
 [CPU+"thread_pool/impl/thread_pool_context.cpp",CPU+"thread_pool/include/knp/backends/thread_pool/thread_pool_context.h",CPU+"thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h"],
 [("mutex, task and finish conditions","thread_pool_context.cpp"),("work counter","thread_pool_context.cpp: work started/finished")],
 [("queue","tasks waiting","thread_pool_context.h"),("outstanding","tasks not yet finished","thread_pool_context.h")],
 ["task side effects, return of join, thread creation and exit"])

p("L01","Learning touches only unlocked plastic connections and conserves resource",
 "A connection's weight changes only if its projection is plastic and unlocked; static and locked projections keep every weight bit-for-bit through any run. Under resource learning every weight that learning computes lies between its lower and upper bound and is the documented function of its resource; resource moved onto some connections of a neuron is taken from that neuron's other connections and free pool, so that their sum changes only by the share that drains when free resource is handed out. Spikes, rewards and punishments move resource as the learning rule states, and connections of one neuron never change because of another neuron's activity.",
 ["histories","inputs","configurations"],
 "for all spike histories, resource parameters, dopamine and locking patterns",
 "Tests check that some weights changed after one run, not conservation, bounds or locking over histories.",
 [CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h",CPU+"cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/synaptic_resource_stdp.h","knp/synapse-traits-library/include/knp/synapse-traits/stdp_synaptic_resource_rule.h"],
 [("resource update and renormalisation","training/stdp.h"),("weight from resource","training/stdp.h: recalculate_synapse_weights")],
 [("free resource","per neuron pool","stdp_synaptic_resource_rule.h"),("synaptic resource","per connection","stdp_synaptic_resource_rule.h")],
 ["projection and population iterators after each step"])

p("L02","Additive spike-timing learning follows the pairing rule of its own connection",
 "Under additive spike-timing learning each connection's weight moves only when both its histories span the rule's period, and then by the sum over pairings of its recorded presynaptic and postsynaptic spike times: increasing when the presynaptic spike precedes or coincides and decreasing when it follows, the less the further they are apart. The new weight is used from then on for impacts. Recorded are exactly the spikes of the populations registered as learning sources (at the connection's source for those whose spikes also cross it, at its target for all of them), kept no longer than the rule's periods.",
 ["histories","inputs"],
 "for all spike trains on both sides, numbers of connections and time constants",
 "Tests run one pair of populations and check that weights differ.",
 [CPU+"cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h"],
 [("spike history collection and weight update","additive_stdp.h")],
 None,["projection iterators after each step"])

p("X01","Each model step moves data through channels, handlers and observers exactly once",
 "In a model run, at every step each input channel is asked exactly once for that step's data and what it produces enters the network as one message stamped with the channel's identity and the step; after the step each output channel, message handler and observer sees exactly the messages produced for it that step, once and in order. A handler's output is stamped with its own identity and reaches exactly its registered receivers. Reading an output channel for a range of steps returns all of its messages of those steps, in step order, and removes exactly those.",
 ["histories","configurations","inputs"],
 "for all numbers of channels, handlers and observers, all sender subscriptions, all input data and step ranges, across several runs",
 "Tests use one channel of each kind and one run.",
 [BF+"impl/model_executor.cpp",BF+"include/knp/framework/model_executor.h",BF+"impl/output_channel.cpp",BF+"include/knp/framework/io/input_channel.h",BF+"include/knp/framework/io/output_channel.h",BF+"include/knp/framework/monitoring/observer.h"],
 [("pre-step and post-step callbacks","model_executor.cpp: start"),("buffer and range read","output_channel.cpp")],
 None,["channel generators, output channel reads, observer callbacks, handler callbacks"])

p("X02","Loading wires exactly the declared channels; saving returns the trained network",
 "Loading a model connects every declared input channel to exactly its projections and every declared output channel to exactly its populations, for any number of channels and identifiers, and refuses a model whose input channel has no data source. Loading a network gives the backend exactly its populations and projections; copying it back returns populations and projections equal to the loaded ones with the current learned state, identities, connections and locks.",
 ["configurations","inputs","histories"],
 "for all networks, channel multimaps and identifier values, before and after running",
 "Tests load one model with one or two channels, where hash-bucket collisions and shared channels do not occur.",
 [BF+"impl/model_loader.cpp",BF+"include/knp/framework/model_loader.h",BF+"impl/synchronization.cpp",BF+"include/knp/framework/synchronization.h",CPU+"cpu-single-threaded-backend/impl/get_network.cpp",CPU+"cpu-multi-threaded-backend/impl/get_network.cpp"],
 [("channel initialisation","model_loader.cpp: init_channels"),("network copy-out","synchronization.cpp")],
 None,["ModelLoader getters, delivered messages, network copy"])

p("X03","Winner-take-all and union handlers select exactly what they promise",
 "A k-winners handler returns all spikes of the message it looks at (the first one) if there are at most k, and otherwise exactly k distinct of them; a group handler lets through all spikes of the winning groups and no others, where groups are ranked by their number of spikes and no more groups win than allowed; the per-group handler keeps in every group all spikes or exactly k; the union handler returns every index that spikes in any of the messages, once. Which of equal candidates win is left to chance, and each has a chance. No handler invents an index, and repeated calls are independent.",
 ["inputs","histories"],
 "for all message sets, group borders, k values and random draws",
 "Tests use one message and one border list.",
 [BF+"impl/message_handlers.cpp",BF+"include/knp/framework/message_handlers.h",BF+"impl/projection/wta.cpp"],
 [("group counting and selection","message_handlers.cpp"),("wiring","projection/wta.cpp")],
 None,["handler call operators"])

p("X04","Data converters map spikes and input data without loss or mix-up",
 "Output converters count, flag or collect exactly the spiking indexes below the configured size over the given messages. Input converters read the next portion of the stream for each step, in order and without skipping or rereading, and emit exactly the positions their interpreter accepts; when the stream ends they emit nothing more.",
 ["inputs","histories"],
 "for all streams, sizes, separators, thresholds and message lists",
 "Tests convert one or two short literal strings.",
 [BF+"include/knp/framework/io/in_converters/sequence_converter.h",BF+"include/knp/framework/io/in_converters/index_converter.h",BF+"impl/input_converter.cpp",BF+"include/knp/framework/io/out_converters/convert_count.h",BF+"include/knp/framework/io/out_converters/convert_bitwise.h",BF+"include/knp/framework/io/out_converters/convert_set.h"],
 [("stream readers","sequence_converter.h, index_converter.h"),("accumulators","out_converters")],
 None,["converter call operators"])

p("N01","Network builders create exactly the connections and neurons of their pattern",
 "Every connection builder produces exactly the connections its pattern defines for the given sizes - all pairs, equal indexes, all but equal indexes, aligned blocks, explicit lists and maps, accepted pairs, clones - each once, with both ends inside their populations and with the parameters the generator gave for that pair; fixed-number builders give every source (or every target) exactly the requested number of partners, drawn from the other population and possibly repeated. An empty population gets no connections. Population builders produce exactly the requested number of neurons with the given parameters.",
 ["inputs","configurations"],
 "for all population sizes, counts, generators and probabilities",
 "Tests use one size per builder, typically where sizes divide evenly or are equal.",
 [BF+"include/knp/framework/projection/creators.h",BF+"include/knp/framework/projection/synapse_generators.h",BF+"include/knp/framework/population/creators.h",BF+"include/knp/framework/population/neuron_parameters_generators.h"],
 [("index arithmetic","synapse_generators.h")],
 None,["contents of the returned projection or population"])

p("N02","Network validation reports exactly the disconnected parts",
 "The connectivity validator reports a population exactly when no projection enters it and none leaves it, and a projection exactly when it has neither a source nor a target population; each is reported once and a connected one never. The validation executor runs every registered validator once per object of its kind and returns every report with the identity and name of its validator.",
 ["inputs","configurations"],
 "for all directed graphs of populations and projections and all sets of registered validators",
 "Tests validate two or three hand-made networks.",
 [BF+"impl/network_validation/executor.cpp",BF+"impl/network_validation/validators/connectivity.cpp"],
 [("degree bookkeeping","connectivity.cpp"),("executor loops","executor.cpp")],
 None,["returned reports"])

p("N03","Datasets are split and scored without losing or double counting a record",
 "An image data set has one record per whole image and label. Splitting puts the first records, in order, into the training part and the following ones into the inference part, of the requested sizes, or refuses when they exceed the records; the generators present data and class of the right record at every step. Inference evaluation answers each record with its most voted class (a spike votes for its index modulo the number of classes, equal votes go to the lowest); every record counts exactly once for each class, so a class's true/false positive/negative counts add up to the number of evaluated records, and the derived scores are the ratios of those counts.",
 ["inputs","histories"],
 "for all record counts, split ratios, steps per record, spike messages and class counts",
 "Tests use one small literal data set.",
 [BF+"impl/data_processing/classification/dataset.cpp",BF+"include/knp/framework/data_processing/classification/dataset.h",BF+"impl/inference_evaluation/classification/processor.cpp",BF+"impl/inference_evaluation/perfomance_metrics.cpp"],
 [("split","dataset.cpp"),("prediction and statistics","processor.cpp")],
 None,["dataset getters, evaluation results"])

p("N04","Monitoring reports what really happened",
 "The spike logger writes every observed message once with its true step, sender name and spikes; the aggregated logger's line at each period contains, per named sender, exactly the number of spikes the earlier lines have not told, so that every spike is told once; the weights logger writes at each period the current state of exactly the chosen projection, ordered by receiver and sender; the status logger writes at each period the number of messages, if any. Normalisers apply the given function once to every value of the chosen kind and to nothing else, leaving the source network untouched when a copy was requested.",
 ["histories","inputs"],
 "for all spike histories, periods, name maps and networks",
 "Tests compare one literal log of one short run.",
 [BF+"impl/monitoring/model.cpp",BF+"include/knp/framework/normalization/neuron_normalizer.h",BF+"include/knp/framework/normalization/synapse_normalizer.h"],
 [("observer functions","monitoring/model.cpp"),("normalisers","normalization/*.h")],
 None,["log streams, network contents"])
p("C04","Identifiers and tags belong to their entity and travel with it",
 "Every new entity gets an identifier no other has, also when several threads make them, unless it is made with a given one, which it then keeps. Identifiers convert to bytes, text and back unchanged, and compare and hash consistently in a strict total order. A tag read back is the value last set under that name for that entity, with its type, and reading it as another type is refused; tags of one entity never show in another. Copying an entity - itself, into a variant, a network, a model, a backend and back - gives an equal entity whose later changes do not reach the original.",
 ["histories","inputs"],
 "for all histories of creating, tagging, copying, moving and carrying entities, all tag value types, all 16-byte identifiers",
 "Tests set one or two tags on one object and compare a few random identifiers.",
 [CL+"include/knp/core/uid.h",CL+"impl/uid.cpp",CL+"include/knp/core/tag.h",CL+"include/knp/core/core.h"],
 [("tag map","tag.h"),("identifier and its generators","uid.h, uid.cpp"),("base data of entities","core.h: BaseData")],
 None,["get_uid, get_tags, get_name, stream operators, hashes"])

p("E06","A backend holds and runs exactly what it was given",
 "A backend holds the populations and the projections it was last given, less those removed from it, each once and with its own lock state, and shows exactly these. Every step runs exactly these: each population's spikes and each projection's impacts appear once, nothing comes from an entity that was removed or replaced, and an entity that is loaded again starts without anything meant for its predecessor. The lists of supported neurons, synapses and indexes name exactly the kinds it accepts; loading any other kind is refused. Removing an unknown entity changes nothing.",
 ["histories","configurations"],
 "for all histories of loading, removing, locking and running with all kinds, on both CPU backends",
 "Tests load one network once and run it; nothing is ever removed, replaced or refused.",
 [CPU+"cpu-single-threaded-backend/impl/backend.cpp",CPU+"cpu-multi-threaded-backend/impl/backend.cpp",CPU+"cpu-library/include/knp/backends/cpu-library/init.h","knp/meta-library/include/knp/meta/variant_helpers.h","knp/meta-library/include/knp/meta/stringify.h"],
 [("load, remove","backend.cpp of both backends"),("subscribing on initialisation","init.h"),("supported types","stringify.h")],
 None,["get_network_data, get_supported_*, spike and impact traffic"])

p("X05","Backends loaded by path are separate, working instances as long as held",
 "Loading a backend by the path of its library gives a new instance of the kind in that library with an identifier and step counter of its own, however often and through however many loaders it was loaded; it goes on working as long as somebody holds it, also after its loader is gone, and is released when nobody does. A path that has no backend is reported as such and loading it fails, without disturbing the backends already loaded.",
 ["histories"],
 "for all sequences of creating and dropping loaders and backends, loading, running and asking, over both backends and paths without a backend",
 "Tests load one backend and keep the loader to the end.",
 [BF+"impl/backend_loader.cpp",BF+"include/knp/framework/backend_loader.h"],
 [("creator cache and library lifetime","backend_loader.cpp: make_creator, load")],
 None,["BackendLoader::load, is_backend, the backends' public interface"])

p("N05","The graph of a network shows exactly its populations and connections",
 "The graph made of a network has every population as a node and every projection as an edge, each once, with size, kind and name (the name tag, or the beginning of the identifier), ends given as indexes of nodes, and -1 for an end that is not in the network. Dividing it gives each maximal set of connected populations once, whatever the direction of connections; connections from outside join nothing. The description lists each population once, with its part, its size and the populations it receives from and sends to. The layout has one point per node of a part, within the margins of the picture.",
 ["inputs","histories"],
 "for all networks, after any history of adding and removing populations and projections, with connections in any direction, repeated, to themselves, from and to the outside, all names, picture sizes, margins and numbers of iterations",
 "The one test prints the graph of an empty network.",
 [BF+"impl/visualizer/visualize_network.cpp",BF+"impl/visualizer/graph_physics.cpp",BF+"include/knp/framework/visualizer/visualize_network.h"],
 [("division by connectivity",BF+"impl/visualizer/visualize_network.cpp: divide_graph_by_connectivity, find_connected_set"),("layout",BF+"impl/visualizer/graph_physics.cpp: iterate, scale_graph")],
 None,["NetworkGraph, divide_graph_by_connectivity, print_network_description, position_network"])

PY="knp/python-framework/"
p("P01","Python programs build exactly the networks they describe",
 "From Python, parameter objects hold what was set, attribute by attribute, and populations, projections, networks and models made of them hold exactly the neurons and connections the program's generators produced, in order, with the identifiers, kinds and ends given: nothing is skipped, repeated, reordered or shared with the objects it was copied from. Generators are called once per index from 0; when one raises, the program gets its exception. Indexes out of range and objects of another kind are refused with a Python exception, never read as something else. A network or model keeps its own copies, returns each of them by identifier, and removing or dropping Python objects never invalidates what other objects show.",
 ["histories","inputs"],
 "for all programs over parameters of the five exported kinds, populations, projections, networks, models and identifiers, with generators that skip, raise or return objects of other kinds, indexes in and out of range, and objects dropped in any order",
 "The Python tests build one small network and read a few values of it; no test changes objects afterwards, mixes kinds, lets a generator fail, reads out of range or drops owners.",
 [PY+"impl/core/cpp/population.h",PY+"impl/core/cpp/projection.h",PY+"impl/core/cpp/common.h",PY+"impl/core/cpp/uid_utilities.h",PY+"impl/base_framework/cpp/network_utility.h",PY+"impl/base_framework/cpp/model_utility.h",PY+"impl/neuron_traits",PY+"impl/synapse_traits"],
 [("generators called from C++",PY+"impl/core/cpp/population.h, projection.h: constructors, add_neurons, add_synapses"),("attribute tables",PY+"impl/neuron_traits, impl/synapse_traits"),("ownership of returned objects",PY+"impl/base_framework/cpp/*_utility.h")],
 None,["attributes, indexing, iteration and methods of the Python classes"])

p("P02","Models run from Python behave as the C++ contract says, and exceptions come back",
 "A model run from a Python program, with Python generators, channels, observers and run conditions, passes the same messages at the same steps through the same channels, observers and output channels, and learns the same synapse parameters, as the specification of backends and executors requires of C++ programs. Conditions are asked with the current step and their answer is taken by its truth, whatever object it is. When a condition or observer raises, the run ends and the program gets that very exception, and the model can be run again. A backend loaded by a program holds and runs exactly the populations and projections it was last given, less those removed; a kind it does not support makes loading fail. The interpreter is never crashed by runs, by stopping from another thread or by dropping executors, models, backends and loaders in any order.",
 ["histories","inputs"],
 "for all models of the kinds available in Python, all sequences of runs with conditions and observers that end, stop or raise, both backends, and all orders of releasing the objects",
 "The Python tests run one model with a condition that counts; nothing raises, runs again, observes or learns.",
 [PY+"impl/base_framework/cpp/model_executor_utility.h",PY+"impl/base_framework/cpp/model_executor.cpp",PY+"impl/base_framework/cpp/output_channel_utility.h",PY+"impl/core/cpp/backend_wrapper.h",PY+"impl/core/cpp/backend.cpp"],
 [("conditions as C++ functions",PY+"impl/core/cpp/backend_wrapper.h: start"),("executor with Python generators and observers",PY+"impl/base_framework/cpp/model_executor_utility.h")],
 None,["ModelExecutor.start, get_output_channel, observers; Backend.start, stop, select_devices; Model.network"])

p("P03","Messages sent from Python arrive as the bus contract says",
 "Endpoints and buses used from Python obey the contract of the message bus: every message built by a program arrives exactly once, with its header and contents as given, in each subscription that names its sender and type, in order of sending; subscribing, unsubscribing and removing receivers change exactly what they name. Calls with arguments of other kinds are refused with a Python exception and change nothing.",
 ["histories","inputs"],
 "for all sequences of creating and dropping endpoints, subscribing, sending, routing, receiving and reading out from Python, on both bus implementations, with wrong calls in between",
 "The Python tests send one message over one bus.",
 [PY+"impl/core/cpp/message_bus.cpp",PY+"impl/core/cpp/message_endpoint.cpp",PY+"impl/core/cpp/spike_message.cpp",PY+"impl/core/cpp/synaptic_impact_message.cpp",PY+"impl/core/cpp/message_header.cpp"],
 [("typed calls by subscription kind",PY+"impl/core/cpp/message_endpoint.cpp"),("message attributes",PY+"impl/core/cpp/spike_message.cpp, synaptic_impact_message.cpp")],
 None,["MessageBus, MessageEndpoint, SpikeMessage, SynapticImpactMessage, Subscription classes of the package"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
