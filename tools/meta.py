#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run by hand after editing; no check needs it."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, M = "src/transport/udp.rs", "src/transport/udp_monitor.rs"
EMI, TUN, CORE, ADR, APDU, TPDU = ("src/packets/" + x for x in ("emi.rs", "tunneling.rs", "core.rs", "addresses.rs", "apdu.rs", "tpdu.rs"))
TESTS = "The eight stable tests encode or decode single packets and data points; none opens a socket, and the two that do need a fixed port and a scripted peer and fail here. "

def mech(*xs):
    return [{"name": n, "where": w} for n, w in xs]

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": TESTS + why,
              "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": mech(*mechanism), "observe_at": observe, "hook_needed": None}})

SF = ["schedules", "fault_sequences"]
prop("C01", "A read returns the group's value, and only that",
     "A client's group read that succeeds returns, unaltered, the payload of a group value response or group value write which the client received on its own tunnel after it had asked, and which was sent to exactly the requested group address; never a confirmation, a read request, an individually addressed telegram, another address's value or one from before the request. If such a telegram arrives within eight seconds of the request while the tunnel stays up, the read succeeds; without one it fails, but while the tunnel stays up not before nine seconds have passed. A read over a working tunnel always sends its request.",
     ["inputs"] + SF, "Every group address and value, every mix of concurrent calls, other bus traffic, loss, duplication, delay and reordering of datagrams, task schedule.",
     "Which telegram ends a read depends on what is on the bus and queued at that moment, which a single packet cannot show.",
     [U, EMI, ADR, APDU, TPDU], [("UdpClient::read_group_address_value", U), ("LDataInd::from_cemi", EMI), ("handle_recv_from_knx_device", U)],
     ["return value of the read call", "datagrams received by the socket"], [("rx", "telegrams received but not yet looked at", U)])
prop("C02", "A write succeeds exactly when the bus confirms that telegram",
     "A client's group write reports success only after a positive confirmation, received on its own tunnel after the request, of the very telegram it sent: same group address, same value and same length. If that confirmation arrives within eight seconds while the tunnel stays up, the write succeeds; a negative confirmation makes it fail within a second, and without any confirmation it fails, but while the tunnel stays up not before nine seconds have passed. A write over a working tunnel always sends its request.",
     ["inputs"] + SF, "Every address and value (1 to 253 octets, or six bits), every late, missing, negative or foreign confirmation, every interleaving with other calls and traffic.",
     "The confirmation comes from a gateway and races with other confirmations and indications.",
     [U, EMI, APDU, TPDU], [("UdpClient::write_group_address_value", U), ("LDataCon::from_cemi", EMI)],
     ["return value of the write call", "confirmations received"], [])
prop("C03", "Each call puts at most one telegram on the bus, and the right one",
     "For every read, write, or solicited read made through a client or a monitor at most one telegram reaches the bus, however often datagrams are repeated, lost or duplicated, and no telegram reaches the bus that no call asked for; a call that reports success has put exactly the telegram asked for (address, service, value) on the bus before it returns. A request of a monitor which the gateway acknowledges in time succeeds. A value that fits no telegram (empty in the six-bit form, or more than 253 octets) is refused with an error and nothing is sent.",
     ["inputs"] + SF, "Every sequence of calls and values with lost requests, lost acknowledgements, repeats, reconnections and abandoned calls.",
     "Exactly-once is about repeats under loss and about numbering across calls.",
     [U, M, APDU, TPDU, EMI], [("send_numbered", U), ("UdpMonitor::write_group_address_value", M), ("UdpMonitor::solecitate_group_read", M)],
     ["telegrams the gateway puts on the bus", "return values"], [("sequence_nr", "number of the next own request", U)])
prop("C04", "Own requests are numbered without gaps and repeated once if not acknowledged",
     "On each tunnel the numbered requests a client or monitor sends carry its own channel and count 0, 1, 2, ... modulo 256 without gap or reuse, one at a time. A telegram request that is not acknowledged within about one second is sent once more, identically, and only then; a request that was acknowledged is not repeated. If it stays unacknowledged the tunnel is given up and a new one is requested within eight seconds.",
     SF + ["histories"], "Every loss, duplication and delay of requests and acknowledgements, stale and foreign acknowledgements, numbers wrapping round, any number of concurrent calls.",
     "Numbering is a property of a whole connection's history; the wrap needs 256 requests.",
     [U, M], [("send_numbered", U), ("is_acknowledged", U)], ["datagrams sent"], [("sequence_nr", "number of the next own request", U)])
prop("C05", "What the gateway sends in sequence is acknowledged, nothing else is",
     "Every telegram and feature message on the client's or monitor's own channel that carries the due sequence number, or the one before it (a repeat), is acknowledged, without an error, with that channel and number within one second. Nothing else is acknowledged: no other channel, no other number, and nothing twice. Numbers wrap round after 255.",
     ["inputs"] + SF + ["histories"], "Every telegram content, and every loss, duplication, reordering and injection of datagrams, with the application busy or idle.",
     "A gateway drops the tunnel when one acknowledgement is missed, so it has to hold for every datagram of a long history.",
     [U, M, TUN], [("handle_recv_from_knx_device", U), ("TunnelingRequest parsing", TUN)], ["acknowledgements sent"], [("expected sequence number", "due number of the gateway", U)])
prop("C06", "A monitor hands out every accepted telegram once, in order, unaltered",
     "A monitor's reader gets the indications and bus monitor telegrams the monitor acknowledged: each exactly once, in the order they were sent, with source, destination, value, additional information, message code and the frame's flags (frame type, repetition, system broadcast, acknowledge request) as on the wire. Repeats and out-of-sequence telegrams are never handed out, and everything acknowledged is handed out as long as the reader keeps reading. Waiting for the next telegram does not fail while the monitor is open, apart from telegrams that cannot be decoded.",
     ["inputs"] + SF, "Every telegram and value length, every sequence of loss, duplication, reordering, reconnection, and every pace of the reader.",
     "Exactly-once delivery in order is about histories with repeats and reconnections.",
     [M, U, EMI, TUN], [("UdpMonitor::next_msg", M), ("handle_recv_from_knx_device", U), ("CEMI and LDataInd parsing", EMI)], ["messages returned to the reader"], [])
prop("C07", "Every call returns in bounded time",
     "Every call on a client or monitor (read, write, solicited read, status, disconnect, connected?, flush) returns, with success or an error, within sixteen seconds, plus fifteen for every other call that is in progress on the same handle at the same time. No loss, silence, crash or nonsense of the gateway makes a call hang. Connecting a client or monitor returns within sixteen seconds too, and fails if no socket can be had or the gateway's address has no route.",
     SF, "Every fault sequence (dead, frozen, restarted, refusing gateway, lost datagrams, socket errors) and interleaving of calls.",
     "A hang needs the fault at the right moment, and its absence can only be seen in simulated time.",
     [U, M], [("timeout_at around every wait", U), ("send_numbered", U)], ["call start and end times"], [])
prop("C08", "Clients and monitors work again by themselves after any outage",
     "Once the network and the gateway work again, at the latest five minutes later every client and monitor that was not closed (a disconnect that failed does not count as closing it) works without help from the application: reads of answering devices, writes, solicited reads and status calls succeed, and telegrams on the bus reach the monitor's reader within five seconds.",
     SF + ["histories"], "Every sequence of crashes, restarts, partitions, refusals, full gateways, losses, socket errors and stalls before the quiet period.",
     "Recovery is about what is left over from any fault history.",
     [U, M], [("reconnect loops", U), ("connect", U), ("UdpMonitorTransport::connect", M)], ["call results and messages after the faults"], [])
prop("C09", "The tunnel is kept alive by heartbeats, and an error answer replaces it",
     "While its tunnel is up, a client or monitor sends a connection state request for its own channel at least every 62 seconds, whatever else it is doing, and of its own accord not more often than every 30 seconds. When the gateway answers one with an error for that channel, a new tunnel is requested within five seconds; answers for other channels have no effect.",
     SF, "Every traffic load, concurrent calls, losses, and answers (good, bad, missing, foreign).",
     "Needs hours of simulated time beside traffic.",
     [U, M], [("heart beat interval in the receive task", U), ("heart beat interval in the monitor task", M)], ["connection state requests and connect requests sent"], [])
prop("C10", "Malformed, foreign or unexpected datagrams do no harm",
     "No datagram, however malformed, truncated, of unknown type, for another channel, from somebody other than the gateway, stale or unexpected (an answer or acknowledgement nobody asked for included), makes a client or monitor panic, spin, stop working or give up its tunnel: calls made meanwhile still succeed. A tunnel is given up and replaced only for a reason: the gateway closed it or reported an error for it, a request stayed unacknowledged, or the socket failed.",
     ["inputs"] + SF, "Every datagram content at every moment, including during connection and in the middle of calls.",
     "The input space is every byte sequence at every protocol state.",
     [U, M, CORE, TUN, EMI, APDU, TPDU], [("parse_response", U), ("handle_recv_from_knx_device", U), ("try_connection", U)], ["panics", "connect requests", "call results"], [])
prop("C11", "Disconnect means disconnected",
     "A disconnect reports success only after the gateway confirmed it for the own channel, and a monitor's disconnect returns the gateway's status; if the confirmation arrives within eight seconds it succeeds, and if none comes it does not fail before eight seconds. After a successful disconnect nothing is sent any more and no new tunnel is opened, later calls fail promptly, a monitor says it is not connected, and a reader that is waiting for telegrams is released with an error. A disconnect over a working tunnel always sends its request, and only for the own channel.",
     SF, "Every moment of the disconnect relative to other calls, traffic, loss, reconnection.",
     "The end of a connection races with the receive task, heartbeats and other calls.",
     [U, M], [("UdpTransport::disconnect", U), ("UdpMonitorTransport::disconnect", M), ("Control", U)], ["datagrams after the call", "call results"], [])
prop("C12", "A tunnel the gateway closes is acknowledged as closed and replaced",
     "When the gateway sends a disconnect request for the own channel, the client or monitor answers it for that channel within one second and requests a new tunnel within five seconds, at any time, also while calls are in progress or telegrams wait unread. It never answers a disconnect request that was not sent, or one for another channel.",
     SF, "Every moment at which the gateway may close the tunnel.",
     "Depends on what the tasks are doing at that moment.",
     [U, M, CORE], [("handle_recv_from_knx_device", U), ("DisconnectRequest parsing", CORE)], ["disconnect responses and connect requests sent"], [])
prop("C13", "Connection status is the gateway's answer to the question",
     "A client's connection status call returns the channel and status of a connection state response the gateway sent for the client's own channel during the call, whether that status is good or an error, and never an older or another channel's answer. If an answer arrives within eight seconds the call succeeds, and if none arrives it fails, but not before eight seconds. A status call over a working tunnel always sends its request.",
     SF, "Every interleaving with heartbeats, which use the same messages, with other calls, delays and losses.",
     "Heartbeat answers and the call's answers look alike; only their order tells.",
     [U, CORE], [("UdpTransport::get_connectionstate", U), ("Control", U)], ["return value of the status call"], [])
prop("C14", "A search returns every device that answers in time, and nothing else",
     "A search sends one search request to the KNX multicast address, naming the port it listens on, and returns after its timeout exactly the devices whose well-formed answers arrived meanwhile, in order of arrival, each with the endpoint, description and service families it sent. Malformed and unrelated datagrams are ignored and neither end the search nor make it panic. It ends at its timeout, with an error if it got no socket or its request could not be sent.",
     ["inputs"] + SF, "Every number, content and timing of answers, with malformed datagrams in between, several searches at once.",
     "Needs answers from several devices and malformed ones in between.",
     [U, CORE, ADR], [("UdpTransport::search", U), ("SearchResponse parsing", CORE)], ["return value of the search", "datagrams of its socket"], [])
prop("C15", "Connection listeners and the connected flag tell the truth",
     "Each listener registered with a monitor is told exactly once, within one second, of every tunnel that is established afterwards, and of nothing else. The monitor says it is connected only while it has a tunnel, and says it is not only while it has none. A listener that does not read, or is gone, affects neither the monitor, its tunnel, nor the other listeners; one that had no room is told of later tunnels again once it has.",
     SF, "Every sequence of connections and losses of the tunnel, any number of listeners, read, unread or dropped.",
     "Needs reconnections and slow listeners.",
     [M], [("add_on_connect and the notification after connecting", M), ("is_connected", M)], ["notifications", "answers of the connected call"], [])
prop("C16", "A call that is abandoned leaves nothing behind",
     "When the application drops a call other than a disconnect before it returns, at any point, later and concurrent calls on the same client or monitor still succeed and return their own results, and the tunnel is kept.",
     ["schedules", "crash_points"], "Every point at which a call in progress may be dropped (timeouts, select), with other calls in progress.",
     "Cancellation points are every await of every call.",
     [U, M], [("locks held across awaits", U), ("send_numbered", U)], ["results of the calls after the abandoned one", "reconnections"], [])
prop("C17", "A dropped client or monitor gives its connection back",
     "When the application drops a client or monitor without disconnecting, its tunnel is closed at the gateway by a disconnect request within two seconds, its socket is closed within five seconds, and it sends nothing afterwards.",
     ["schedules", "crash_points"], "Every moment of the drop: connecting, idle, during traffic, after lost tunnels.",
     "A leak shows only after the handle is gone, in the background task.",
     [U, M], [("background tasks ending with the handle", U), ("background tasks ending with the handle", M)], ["datagrams and socket state after the drop"], [])
prop("C18", "Traffic nobody reads neither blocks a client nor breaks a monitor",
     "A client that is idle amid any number of bus telegrams keeps its tunnel, and its next reads, writes and status calls succeed as usual. A monitor whose reader pauses during any number of telegrams keeps working or recovers by itself, and hands out current telegrams again once the reader reads.",
     ["schedules", "histories"], "Every amount and rate of traffic and every pause of the reader.",
     "Needs more telegrams than any buffer holds.",
     [U, M], [("handling of a full telegram channel", U)], ["call results", "messages after the pause"], [("telegram channel", "bounded queue between receive task and reader", U)])
prop("C19", "Every datagram sent is a well-formed request of the right kind to the gateway",
     "Every datagram a client or monitor sends goes to its gateway and is a complete, correctly sized frame of a kind a client may send, with reserved octets zero and the given endpoints its own or left open; a telegram in it is a plain group addressed read or write request with a frame type and a length field that fit its value.",
     ["inputs", "schedules", "fault_sequences"], "Every call with every argument, in every protocol state.",
     "The tests compare a few fixed packets.",
     [U, M, CORE, TUN, EMI, APDU, TPDU], [("packet functions", CORE), ("TunnelingRequest, TunnelingAck, FeatureSet", TUN), ("LDataReqMessage", EMI)], ["datagrams sent"], [])
prop("C22", "A gateway that gives no tunnel is asked again, but not flooded",
     "A client or monitor that has no tunnel and was not released asks its gateway for one over and over, however long the gateway refuses, stays silent or cannot be reached: at least every 45 seconds, and after an attempt that was refused, failed or stayed unanswered not before nine seconds later.",
     SF, "Every sequence of refusals, outages, socket errors, lost and late answers.",
     "Needs refusals and outages of every length and kind while time passes.",
     [U, M], [("connect", U), ("try_connection", U)], ["connection requests sent"], [])
prop("C23", "A long-lived client or monitor does not pile up tasks or sockets",
     "However often its tunnel is lost, refused, given up or replaced and however many calls were made or abandoned, a client or monitor never has more than two sockets open, nor more than eight background tasks plus two for each call in progress, and when it is dropped all its tasks have ended five seconds later.",
     ["schedules", "fault_sequences", "histories"], "Every history of tunnels lost in every way, with every interleaving of calls and background tasks.",
     "A leak of one task per tunnel shows only after many losses, or only when a particular message is lost.",
     [U, M], [("tasks spawned by connect", U), ("task that enables the info service", M)], ["tasks spawned and ended", "sockets opened and closed"], [])
prop("C24", "Memory stays bounded whatever arrives and however long it runs",
     "However many telegrams arrive unread, however often the tunnel is lost and replaced, and whatever datagrams are received, a client or monitor holds no more than 512 KiB of heap memory at any time.",
     ["schedules", "fault_sequences", "histories"], "Every amount of traffic, every pause of the reader, every history of tunnels and calls.",
     "Growth shows only after thousands of telegrams or many tunnels, when nobody reads.",
     [U, M], [("queue of telegrams between receive task and reader", U), ("queue of the monitor", M)], ["heap bytes held by the code under test"], [("telegram channel", "bounded queue between receive task and reader", U)])
NA = []
def na(id, title, statement, over, qtext, why, files, mechanism, observe, reason):
    prop(id, title, statement, over, qtext, why, files, mechanism, observe)
    NA.append({"property": id, "reason": reason})
na("C20", "Data point values survive encoding and decoding",
   "For every data point type and every value in its range, decoding the encoded value gives the same value up to the type's resolution, and decoding rejects payloads of the wrong length with an error instead of panicking.",
   ["inputs"], "All data point types, values and payloads.", "They try one value per type.",
   ["src/dp_types.rs"], [("from_bytes and to_bytes of each type", "src/dp_types.rs")], ["decoded values"],
   "Pure functions of one argument without concurrency, time, I/O or shared state: no schedule or fault can change the outcome, so a simulator adds nothing over plain input testing. The transport takes and returns raw octets and never calls them.")
na("C21", "The written form of an address is the address",
   "Printing a group or individual address and parsing it again gives the same address, for every address in each notation, and text that is not an address is rejected.",
   ["inputs"], "All addresses and strings.", "They try single addresses.",
   [ADR], [("Display and parsing of addresses", ADR)], ["parsed addresses"],
   "Pure functions without concurrency, time or I/O; not used by the transport. The conversion of an address to its 16 bits, which the transport does use, is decided within C01 to C03.")

TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences, judged by a reference model over the recorded history"
NOTE = ("Seeded random exploration, not exhaustive: the property held in every simulated run of this check. The client, monitor, codecs and tokio (timers, select, channels, locks) "
        "run real code; sockets, network, gateway, bus, application, clock and scheduler decisions are simulated. Tasks are interleaved at awaits, locks, channels and socket calls on one thread. ")
EXTRA = {
 "C14": "Search runs in worlds of their own with up to a dozen devices.",
 "C08": "Liveness is bounded: five simulated minutes after the last fault.",
 "C07": "Bounds are in simulated time, extended by stalls the simulator itself injects.",
 "C10": "Datagrams are structure-aware mutations of protocol frames and random bytes.",
}
man = {"version": 1, "setup_cmd": "bash /verif/setup",
       "checks": [], "not_applicable": NA,
       "notes": "No hook in /repo is needed: the simulator replaces the tokio dependency by [patch.crates-io] and compiles /repo unmodified. DESIGN.md explains the simulator, the oracles and the bounds; known-findings.txt lists what was found and repaired."}
for p in P:
    i = p["id"]
    if any(n["property"] == i for n in NA):
        continue
    man["checks"].append({"property": i, "quick_cmd": f"bash /verif/check {i} quick", "thorough_cmd": f"bash /verif/check {i} thorough",
                          "technique": TECH, "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for name, obj in (("MANIFEST", [man]), ("PROPERTIES", P)):
        sch = json.load(open(f"/root/.vp/{name}.schema.json"))
        for o in obj:
            jsonschema.validate(o, sch)
    print("valid")
except (ImportError, FileNotFoundError):
    pass
