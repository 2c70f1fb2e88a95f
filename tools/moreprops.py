RR="core/federated/RTI/rti_remote.c"; RK="core/federated/RTI/rti_common.c"; FE="core/federated/federate.c"; RM="core/federated/RTI/main.c"
prop("F01","The RTI grants a tag only when no earlier message can follow",
 "Under centralized coordination the RTI sends a federate a TAG for g only when no message with a tag g or earlier can still reach it, given everything that its upstream federates, transitively and around cycles, have promised; a PTAG for g only when no message earlier than g can, nor one at g from outside its zero-delay cycle. Grants to a federate have strictly increasing tags (a TAG may confirm a PTAG), and a message is never forwarded to a federate that has already been granted its tag.",
 ["configurations","histories","schedules"],"every topology with any delays and zero-delay cycles, every order in which the messages of federates (NET, LTC, tagged messages, absences, stops, resignations) reach the RTI, every interleaving of its threads",
 "Safety is a global property of topology and message order; the existing RTI test only computes minimum delays of fixed graphs.",
 [RK,RR],
 [("next event, completed, grants","what the RTI knows of each federate","scheduling_node_t"),("messages in transit","tags of messages forwarded and not yet completed","federate_info_t.in_transit_message_tags")],
 [("grant decision",RK+" tag_advance_grant_if_safe, earliest_future_incoming_message_tag, eimt_strict"),("sending",RR+" notify_tag_advance_grant, notify_provisional_tag_advance_grant"),("updates",RR+" handle_timed_message, handle_next_event_tag, handle_latest_tag_confirmed")],
 ["byte streams between RTI and federates"])
prop("F02","The RTI grants every tag that has become safe; a federation never stalls",
 "Whenever all messages that the RTI has received are processed, every federate that waits for a tag that the received promises make safe has been sent a TAG for it, and every federate of a zero-delay cycle for whose tag only messages within the cycle are outstanding has been sent a PTAG. So a federation of live federates always proceeds to its end.",
 ["configurations","histories","schedules"],"every topology (no zero-delay connection between two different zero-delay cycles), every order of messages at the RTI and every interleaving of its threads",
 "A missed grant is a deadlock that occurs only for particular topologies and message orders.",
 [RK,RR],
 [("next event, completed, grants","what the RTI knows of each federate","scheduling_node_t")],
 [("re-evaluation of downstream federates",RK+" notify_downstream_advance_grant_if_safe"),("propagation of PTAGs upstream",RR+" notify_provisional_tag_advance_grant")],
 ["byte streams between RTI and federates at moments when the RTI has nothing left to do"])
prop("F03","The RTI forwards every message once, intact and in order",
 "Every tagged message and every port-absent message that a federate sends through the RTI reaches its destination exactly once, byte for byte, and in the order in which that sender sent them, before any grant that covers its tag; nothing else is forwarded. Only messages to federates that have left are dropped.",
 ["inputs","schedules","histories"],"messages of any length, segmented in any way by the network, any number of concurrent senders, destinations that start late, leave or fail",
 "Interleaving of writers, segmentation and departures are not exercised by any unit test.",
 [RR,"core/federated/network/net_util.c"],
 [("socket of a federate","guarded by the RTI's mutex","federate_info_t.socket")],
 [("forwarding",RR+" handle_timed_message, handle_port_absent_message"),("reading and writing","core/federated/network/net_util.c read_from_socket, write_to_socket")],
 ["byte streams between RTI and federates"])
prop("F04","All federates agree on one stop tag, the maximum of the proposals",
 "When a federate requests a stop, every other live federate that has not proposed a stop tag is asked exactly once, and when all live federates have proposed, all of them are granted the same tag: the maximum of all proposals. A federate that leaves does not block the stop; grants after the stop respect the stop tag.",
 ["histories","schedules"],"any number of federates requesting a stop at the same time or at different tags, before start, while others resign or fail, every interleaving",
 "Concurrent requests, replies and resignations interleave in many ways.",
 [RR],
 [("maximum stop tag","the maximum of the proposals","rti_remote_t.base.max_stop_tag"),("federates handling the stop","how many have proposed","rti_remote_t.num_feds_handling_stop")],
 [("request",RR+" handle_stop_request_message"),("reply",RR+" handle_stop_request_reply"),("grant",RR+" broadcast_stop_time_to_federates_locked")],
 ["byte streams between RTI and federates"])
prop("F05","The RTI admits exactly its federates and starts and ends them together",
 "A client is accepted if and only if it gives the RTI's federation ID and the ID of a federate that has not joined; any other is told why it is rejected and does not disturb the federation. All federates receive the same start time: the maximum of the times they proposed plus the start offset. Address queries are answered with what was advertised, connections are closed only when their federate has left, and the RTI exits when all have left: with an error code exactly if a federate failed.",
 ["inputs","schedules","histories"],"any command line options, any number of wrong clients at any time, any order of joining, any federation IDs, every interleaving",
 "Wrong clients, simultaneous joins and departures and their interleavings are not tested.",
 [RR,RM],
 [("federate state","not connected, pending, granted","scheduling_node_t.state"),("maximum start time","maximum of the proposals","rti_remote_t.max_start_time")],
 [("admission",RR+" receive_and_check_fed_id_message"),("start",RR+" handle_timestamp"),("end",RR+" handle_federate_resign, handle_federate_failed, wait_for_federates")],
 ["byte streams between RTI and its clients; exit code of the RTI"])
FD="core/federated/federate.c"
prop("F06","Federates execute only granted tags and keep their promises to the RTI",
 "Under centralized coordination a federate with upstream federates executes a tag only after a TAG or PTAG for it or a later one; no NET or LTC it sends is contradicted by what it then executes or sends; every message and absence leaves with the tag, destination and value that the program gave it, none twice. Having proposed or accepted a stop tag, it executes nothing at or after its own proposal until the stop is granted, nothing after the stop tag, and it resigns only after everything else.",
 ["programs","schedules","histories","configurations"],"every federated program with zero-delay cycles, delays, physical actions and stop requests, any number of workers, every interleaving of listener, workers and network",
 "The obligations relate what several threads send, receive and execute; no unit test runs a federate.",
 [FD,"core/threaded/reactor_threaded.c"],
 [("last grant","latest TAG or PTAG, and which","federate_instance_t.last_TAG, is_last_TAG_provisional"),("promises","latest NET and LTC","federate_instance_t.last_sent_NET, last_sent_LTC")],
 [("NET",FD+" lf_send_next_event_tag, bounded_NET"),("LTC",FD+" lf_latest_tag_confirmed"),("grants",FD+" handle_tag_advance_grant, handle_provisional_tag_advance_grant"),("stop",FD+" handle_stop_request_message, handle_stop_granted_message, lf_send_stop_request_to_rti"),("messages",FD+" lf_send_tagged_message, lf_send_port_absent_to_federate")],
 ["byte stream between federate and RTI; reactions with their tags"])
prop("F07","A federation computes what its program means, tag by tag",
 "Under centralized coordination every message sent over a logical connection is present, with its value, at its receiver at exactly the tag of its sending plus the delay of the connection (a microstep later for each message of that connection already there), and reactions see it before they could have assumed its absence. Every federate executes exactly the reactions and tags that the semantics prescribes for it with these inputs, whatever the interleaving, and the federation always proceeds to its stop tag and ends.",
 ["programs","schedules","histories","configurations"],"every federated program with zero-delay cycles, delays, actions, deadlines and stop requests, any number of workers, every interleaving of listeners, workers, RTI and network",
 "Determinism across processes is a property of all interleavings of several processes.",
 [FD,"core/threaded/reactor_threaded.c",RK,RR],
 [("status of network inputs","tag up to which each is known","lf_action_base_t.trigger.last_known_status_tag"),("level up to which reactions may run","max_level_allowed_to_advance","federate.c")],
 [("receiving",FD+" handle_tagged_message, handle_port_absent_message, schedule_message_received_from_network_locked"),("waiting for inputs",FD+" lf_update_max_level, lf_reset_status_fields_on_input_port_triggers, lf_stall_advance_level_federation"),("grants",FD+" lf_send_next_event_tag")],
 ["reactions with their tags and inputs in every federate"])
prop("F08","Messages over physical connections arrive in order, once, when they arrive",
 "Every message sent over a physical connection is delivered to its receiver exactly once, with its value and in the order of sending, at a tag whose time is the physical time of its arrival and which is greater than the receiver's current tag; only messages still under way when the receiver ends are lost. Federates find each other through the RTI, whatever the order in which they start.",
 ["programs","schedules","histories"],"every federated program with physical connections, any start order, any segmentation and latency of the network, every interleaving",
 "Arrival races with tag advance, startup and shutdown of both federates.",
 [FD,"core/federated/network/net_util.c"],
 [("connections between federates","sockets to and from other federates","federate_instance_t.sockets_for_outbound_p2p_connections, sockets_for_inbound_p2p_connections")],
 [("connecting",FD+" lf_connect_to_federate, lf_handle_p2p_connections_from_federates"),("sending",FD+" lf_send_message"),("receiving",FD+" handle_message")],
 ["values sent and reactions of the receiver with tags"])
prop("F09","Decentralized coordination: nothing assumed too early, late inputs are visible",
 "Under decentralized coordination a federate begins no tag before its time plus the STA unless its network inputs are known up to it, and assumes no input to be absent before that time plus the STA and the STAA of the input; nor does it wait longer than that. A message that arrives before its tag has passed is handled at exactly that tag, a later one at the earliest tag still possible; none is lost before the stop tag and order is kept. Reactions that an untimely message affects, and only those, see it: they get the intended tag and their STP handler runs, and what they leave unhandled reaches the reactions downstream.",
 ["programs","schedules","histories","configurations"],"every federated program with delays, STAs and STAAs, STP handlers and deadlines, any latency of the network, any number of workers, every interleaving of listeners, the thread that updates the levels, and workers",
 "Whether a message is tardy is decided by a race between its arrival, the workers and the thread that assumes absence; no unit test runs a federate.",
 [FD,"core/reactor_common.c","core/threaded/reactor_threaded.c"],
 [("status of network inputs","tag up to which each is known","lf_action_base_t.trigger.last_known_status_tag"),("violations","reactions whose inputs were late","reaction_t.is_STP_violated"),("intended tag","tag a message was sent for","trigger_t.intended_tag"),("level up to which reactions may run","max_level_allowed_to_advance","federate.c")],
 [("receiving",FD+" handle_tagged_message, handle_port_absent_message, schedule_message_received_from_network_locked"),("assuming absence",FD+" update_ports_from_staa_offsets"),("STA","core/threaded/reactor_threaded.c wait_until, _lf_next_locked; lf_set_sta"),("STP violations","core/reactor_common.c _lf_invoke_reaction, schedule_output_reactions; core/threaded/reactor_threaded.c _lf_worker_handle_STP_violation_for_reaction")],
 ["reactions and STP handlers with tags, intended tags and physical times","bytes read from other federates, with the time"])
prop("C01","Clock synchronization keeps federate clocks close to the RTI's and monotone",
 "With clock synchronization every federate adjusts its clock by what exchanges of messages with the RTI reveal about its error, so that the error stays within the asymmetry of the network's delays plus the drift since, at the start and (if enabled) for as long as the federation runs, with exchanges that are lost, late or disturbed leaving it no worse. The clock of a federate never goes backwards for its program, and federates start and handle events by the corrected clock, never early. The RTI answers every request and conducts one exchange per period with every federate.",
 ["schedules","histories","configurations"],"any offset and drift of the clocks, any asymmetric and varying latencies, loss of datagrams, any interleaving of the clock threads with workers and listeners",
 "Needs clocks that are wrong by a known amount and a network with known delays; no unit test has either.",
 ["core/federated/clock-sync.c","core/clock.c",RR],
 [("correction","what is added to the clock","_lf_clock_sync_offset"),("statistics of exchanges","sum, history and number","socket_stat_t")],
 [("exchange","core/federated/clock-sync.c handle_T1_clock_sync_message, handle_T4_clock_sync_message"),("reading the clock","core/clock.c lf_clock_gettime, core/federated/clock-sync.c clock_sync_add_offset"),("RTI",RR+" clock_synchronization_thread, send_physical_clock, handle_physical_clock_sync_message")],
 ["byte streams and datagrams between RTI and federates with the times at which they are sent and arrive; clock readings of programs"])
UT="core/utils/"
prop("U01","Queues, sets, maps and vectors do exactly what their operations mean",
 "For every sequence of operations the event queue and the reaction queues are bags ordered by tag or priority (everything inserted comes out once, smallest first; what is removed or found is in them; equality is what the queue says it is), hash sets are sets, hash maps are functions, vectors are sequences and mixed radix integers count through all combinations in order. Iterators visit every element exactly once.",
 ["inputs","histories"],"every sequence of operations, any values, any sizes across the points at which containers grow",
 "The existing tests of these containers run a few fixed or random sequences without an independent meaning to compare to.",
 [UT+"pqueue_base.c",UT+"pqueue_tag.c",UT+"pqueue.c",UT+"hashset/hashset.c",UT+"vector.c","include/core/utils/impl/hashmap.h","core/mixed_radix.c"],
 [("heap","elements, one-based","pqueue_t.d"),("hash set","items with 0 and 1 reserved","hashset_t.items"),("vector","start, next, end","vector_t")],
 [("queues",UT+"pqueue_base.c, pqueue_tag.c"),("hash set",UT+"hashset/hashset.c, hashset_itr.c"),("hash map","include/core/utils/impl/hashmap.h"),("vector",UT+"vector.c"),("mixed radix","core/mixed_radix.c")],
 ["results of the operations"])
prop("U02","Tag and time arithmetic is exact and saturates",
 "Adding times and tags, delaying tags and comparing them yields, for every 64 bit time and 32 bit microstep, the mathematical result, or FOREVER or NEVER where that is out of range, independently of the compiler; delayed tags respect the rules for zero, positive and absent delays, and comparison is the lexicographic total order. Times written for people denote the time given.",
 ["inputs"],"all times from NEVER to FOREVER and all microsteps, including those at the ends of the range",
 "The ends of the range are where a calculation in a fixed width goes wrong; the existing tests do not compare with exact arithmetic there.",
 ["tag/api/tag.h","core/tag.c"],
 [("tag","time and microstep","tag_t")],
 [("addition","core/tag.c lf_time_add, lf_tag_add"),("delays","core/tag.c lf_delay_tag, lf_delay_strict"),("comparison","core/tag.c lf_tag_compare"),("text","core/tag.c lf_readable_time, lf_comma_separated_time")],
 ["results of the functions"])
