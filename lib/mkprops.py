#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

C = "cocotbext/pcie/core/"
X = "cocotbext/pcie/xilinx/us/"
S = "cocotbext/pcie/intel/s10/"
T = "cocotbext/pcie/intel/ptile/"

p("C01", "A link never sends a TLP beyond the credits its peer advertised",
  "On every link and for each credit class (posted, non-posted, completion), a transmitter puts a TLP on the link only when the header credit and the data credits it needs (one per started 16 bytes of payload) fit under the most recently received limit, counting modulo the credit field size and treating an initial advertisement of zero as unlimited. No TLP is sent before flow-control initialisation of the link has completed on the transmitting side.",
  ["schedules", "configurations", "histories"],
  "All credit advertisements, TLP mixes and sizes, release timings, and arbitrarily long histories (header counters wrap at 4096, data counters at 65536).",
  "The tests use one generous credit configuration and short runs, so transmitters are practically never credit limited and counters never wrap.",
  [C+"port.py", C+"tlp.py"],
  [("credit gate before the transmit queue", C+"port.py FcChannelState.tx_tlp_fc_gate"), ("modular counters", C+"port.py FcStateData/FcStateHeader"), ("data credits of a TLP", C+"tlp.py get_data_credits")],
  ["TLPs and DLLPs crossing each simulated link"])
p("C02", "Credits are returned exactly once and blocked traffic always resumes",
  "Every receiver advertises exactly its initial allocation plus the credits of the received TLPs whose buffers have been released, each TLP counted once however often it is released or forwarded, and it advertises each release within the update latency. A TLP that waits for credit is sent once enough credit has been advertised, and a credit class that is exhausted never delays TLPs of another class on that link.",
  ["schedules", "histories", "configurations"],
  "All orders and timings of releases, all initial allocations, arbitrarily long runs with counter wrap, all blocking patterns of the three classes.",
  "A leaked or doubled credit only shows after thousands of TLPs or with minimal allocations; tests stop long before and start with large allocations.",
  [C+"port.py", C+"switch.py", C+"device.py", C+"bridge.py", C+"function.py"],
  [("release token", C+"port.py rx_set_tlp_release_fc_cb/rx_release_fc_token"), ("UpdateFC generation and timers", C+"port.py _run_transmit/_run_fc_update_timer"), ("wake-up of gated senders", C+"port.py handle_fc_dllp")],
  ["UpdateFC DLLPs and TLPs crossing each link"])
p("C03", "Flow-control initialisation always completes with the right values",
  "For any start-up skew between the two ends and any interleaving of their initialisation DLLPs, both ends finish flow-control initialisation, each end's view of its peer's initial credits equals what the peer advertised, and the initialisation DLLPs sent follow the two-phase protocol (second-phase DLLPs only after values for all three classes were received). Update DLLPs received before initialisation has finished never change credit state.",
  ["schedules", "configurations"],
  "All interleavings of the two ends' INIT1/INIT2/UPDATE DLLPs and TLPs, all initial allocations including unlimited ones.",
  "Tests connect both ends at time zero with identical timing, a single interleaving.",
  [C+"port.py", C+"dllp.py"],
  [("FC_INIT1/FC_INIT2 state machine", C+"port.py handle_fc_dllp"), ("init DLLP generation", C+"port.py _run_transmit")],
  ["DLLPs crossing each link, first TLP sent"])
p("C04", "The data link delivers every TLP exactly once, in order, and acknowledges it",
  "TLPs handed to a link endpoint are numbered consecutively modulo 4096 and are delivered to the peer's receiver exactly once, unmodified and in transmission order; a repeated TLP is not delivered again but acknowledged again, and a TLP that skips ahead is not delivered and provokes one NAK for the last good one. Every acknowledgement names the last in-order TLP received, every delivered TLP is acknowledged within the acknowledge latency, and acknowledgements for unsent or already acknowledged TLPs are ignored.",
  ["schedules", "histories", "fault_sequences"],
  "All histories of TLPs and DLLPs in both directions, including more than 4096 TLPs per direction, duplicated and skipped TLPs and stale or early acknowledgements.",
  "Tests see only a loss-free link and fewer than 4096 TLPs, so wrap-around, duplicate and gap handling never run.",
  [C+"port.py"],
  [("sequence check, ACK/NAK scheduling", C+"port.py ext_recv"), ("retry buffer purge and window checks", C+"port.py handle_dllp"), ("sequence assignment", C+"port.py _run_transmit")],
  ["TLPs/DLLPs crossing the link, TLPs delivered to the receive handler"])
p("C05", "Outstanding requests of a function never share a tag; completions match requests",
  "At any time the outstanding non-posted requests of one requester carry pairwise different tags within the enabled tag range (32, or 256 with extended tags, and never more than the requester's limit). Each request is finished by, and only by, completions carrying its own requester ID and tag, and the data or status returned to the caller comes from those completions even when completions of different requests interleave; tags return to use afterwards so that issuing requests never stalls forever.",
  ["schedules", "histories", "configurations"],
  "Any number of concurrent requests from any functions, any completion order and interleaving, requests that fail or time out, arbitrarily many tag reuse cycles.",
  "Tests issue mostly sequential requests to responders that complete in order; tag wrap with long-lived requests, out-of-order completions and tag exhaustion are not reached.",
  [C+"function.py", C+"rc.py"],
  [("tag allocation", C+"function.py alloc_tag/release_tag"), ("completion dispatch", C+"function.py recv_cpl, perform_nonposted_operation")],
  ["requests and completions on the requester's link, values returned to callers"])
p("C06", "Memory and I/O reads through the fabric return what was last written",
  "For every sequence of memory and I/O writes and reads issued through the public access methods (host to device, device to host, device to device) at any address and length in a mapped region, each read returns exactly the bytes most recently written there, and no byte outside the addressed range is changed. An access to an address nothing claims is reported as a failure to the caller instead of returning data.",
  ["inputs", "histories", "configurations"],
  "All addresses, alignments, lengths (0 up to several KiB), payload and read-request size settings, 32/64-bit regions and topologies.",
  "Tests sample a handful of lengths and offsets at default settings, checking each access alone and never the bytes around it.",
  [C+"region.py", C+"rc.py", C+"endpoint.py", C+"function.py"],
  [("request generation and reassembly", C+"region.py MemoryTlpRegion/IoTlpRegion"), ("completers", C+"rc.py handlers, "+C+"endpoint.py handlers")],
  ["results of the public read/write methods and the memory images behind them"])
p("C07", "Every request put on the fabric is well formed and minimal",
  "Every memory or I/O request generated for an access respects the configured maximum payload and read-request sizes, does not cross a 4 KiB boundary, uses the 32-bit address form exactly when the address is below 4 GiB, and has byte enables that follow the PCIe rules. Together the requests of one access cover exactly the accessed bytes, once each and in ascending order.",
  ["inputs", "configurations"],
  "All addresses, lengths and size settings (128..4096).",
  "Tests check returned data only, which stays right when a request is oversized, crosses a page or overlaps its neighbour.",
  [C+"region.py", C+"tlp.py", X+"usp_model.py"],
  [("request splitting", C+"region.py"), ("byte enables", C+"tlp.py set_addr_be")],
  ["requests crossing links"])
p("C08", "Read completions are split legally and describe the data exactly",
  "For every read request a completer accepts, it returns completions in ascending address order that respect maximum payload size and read completion boundary, whose payloads concatenate to the requested bytes, and whose byte count, lower address, length, tag, requester ID, completer ID, traffic class and attributes are those PCIe prescribes for each of them; only the last one completes the request.",
  ["inputs", "configurations"],
  "All request addresses, lengths and byte enables, both read completion boundaries, the split-everywhere option, all payload sizes, all completers.",
  "Tests verify only the reassembled data; the requester tolerates most wrong header values and split points.",
  [C+"rc.py", C+"endpoint.py", C+"tlp.py"],
  [("completion splitting", C+"rc.py handle_mem_read_tlp, "+C+"endpoint.py handle_mem_read_tlp"), ("byte count and lower address", C+"tlp.py get_be_byte_count/get_lower_address")],
  ["completions crossing links"])
p("C09", "Completers honour byte enables exactly",
  "A memory, I/O or configuration write changes exactly the bytes its byte enables select and no other, for every legal enable pattern including non-contiguous ones and none at all. A read returns the current value of every enabled byte, and zero-length reads and writes have no effect on data.",
  ["inputs"],
  "All legal first/last enable combinations, lengths and addresses at every kind of completer (host memory, endpoint memory, I/O, configuration space).",
  "The access methods only generate contiguous enables, so no test ever sends another pattern.",
  [C+"rc.py", C+"endpoint.py", C+"function.py", C+"tlp.py"],
  [("byte-enable iteration in write handlers", C+"rc.py handle_mem_write_tlp/handle_io_write_tlp, "+C+"endpoint.py"), ("masking in config write", C+"function.py handle_config_0_tlp")],
  ["completer memory after injected TLPs, completions"])
p("C10", "Every TLP reaches exactly the one destination its routing names",
  "In any enumerated hierarchy each memory, I/O and configuration request is delivered only to the function whose region or ID it addresses, and each completion only to its requester, travelling only over the links between them; configuration requests are converted to the local form exactly on the target bus. A request that addresses nothing is never delivered to any function, and posted requests and completions that cannot be routed are discarded.",
  ["configurations", "inputs"],
  "All topologies of root ports, switches and multi-function endpoints, all addresses and IDs, peer-to-peer included.",
  "Tests use two or three fixed topologies and address only existing targets.",
  [C+"bridge.py", C+"switch.py", C+"rc.py", C+"device.py", C+"function.py", C+"port.py"],
  [("upstream/downstream routing", C+"bridge.py upstream_recv/downstream_recv, match_tlp"), ("switch routing", C+"switch.py"), ("function match", C+"function.py match_tlp, "+C+"device.py")],
  ["TLPs on every link"])
p("C11", "Every non-posted request is answered once, with the right status",
  "Every non-posted request that enters the fabric is answered by exactly one response sequence - successful data, or a single completion with unsupported-request, completer-abort or retry status as the situation demands - addressed to its requester, and no posted request or completion is ever answered. Address decoding disabled at the addressed endpoint function, absent functions, unclaimed addresses and unreachable buses give unsupported request; a request of an endpoint to a memory or I/O region of the host whose access fails gives completer abort (an address left over for the root complex itself may also give completer abort, and a zero-byte access there may succeed).",
  ["inputs", "configurations", "histories"],
  "All request kinds and targets including absent ones, all enable-bit settings, any number in flight.",
  "Tests hardly send a request that must fail; a missing, doubled or mis-statused completion for those goes unseen.",
  [C+"rc.py", C+"bridge.py", C+"device.py", C+"switch.py", C+"function.py", C+"endpoint.py", C+"tlp.py"],
  [("UR/CA/CRS generation", C+"tlp.py create_ur_completion_for_tlp et al. and callers")],
  ["requests and completions on links, results returned to callers"])
p("C12", "The fabric neither loses, duplicates, alters nor reorders TLPs of a flow",
  "TLPs sent from one source to one destination arrive exactly once, with identical header fields and payload, and in sending order (a send that has returned precedes any send started afterwards) for each pair of source and destination within a credit class, under any competing traffic, any back-pressure and any credit limits. When receivers keep draining, everything sent eventually arrives.",
  ["schedules", "configurations", "histories"],
  "All traffic mixes among any number of ports of a switch hierarchy, all stalling patterns and credit allocations.",
  "Tests run one transaction at a time through a switch; contention and back-pressure never occur.",
  [C+"switch.py", C+"bridge.py", C+"port.py", C+"device.py", C+"rc.py"],
  [("switch ingress, routing and arbitration queues", C+"switch.py"), ("bridge forwarding", C+"bridge.py")],
  ["TLPs on every link"])
p("C13", "Enumeration finds every function and numbers buses correctly",
  "After enumeration of any hierarchy the host's device tree contains exactly the functions present, each once, under the right parent and with its true identity; bus numbers are assigned depth-first, are unique, nest properly in each bridge's secondary/subordinate range, and every function learns its own bus number. Functions that answer with retry status for a while (up to about ten milliseconds) are found all the same, and so are endpoints directly on the internal bus of a root complex or switch.",
  ["configurations", "schedules"],
  "All topologies of root ports, nested switches, multi-function and sparse-function devices, and all configuration-retry delays.",
  "Tests enumerate two fixed topologies that are ready at once.",
  [C+"pci.py", C+"rc.py", C+"bridge.py", C+"function.py", C+"device.py", C+"switch.py"],
  [("bus scan", C+"pci.py PciHost/PciBus scan"), ("configuration access with retry", C+"rc.py config_read"), ("bus number capture", C+"function.py")],
  ["the device tree, configuration space read back, configuration requests on links"])
p("C14", "Assigned BARs and bridge windows are aligned, disjoint and nested",
  "After enumeration every implemented BAR has an address aligned to its size and of the right type and width, no two BARs anywhere overlap each other or the host's own regions, each BAR lies inside the windows of all bridges above it, and sibling bridge windows and other resources on the same bus are disjoint. The device tree reports the size and address the hardware registers hold.",
  ["configurations"],
  "All combinations of BAR kinds (I/O, 32/64-bit, prefetchable), sizes and positions over all topologies.",
  "Tests use small fixed BAR sets, where misalignment or overlap of windows cannot arise.",
  [C+"pci.py", C+"bridge.py", C+"function.py", C+"rc.py"],
  [("BAR sizing", C+"pci.py read_bars"), ("assignment and windows", C+"pci.py assign_resources/setup_bridge")],
  ["BAR and window registers read back from configuration space, device tree"])
p("C15", "Configuration registers behave by their attributes under any write",
  "Every configuration register field keeps its attribute under all writes with any byte enables: read-only fields never change, read-write fields take the written value exactly in enabled bytes, write-one-to-clear fields only clear on written ones, and unimplemented registers read as zero and ignore writes. Reads have no side effects and a write never affects another register.",
  ["inputs", "histories"],
  "All sequences of configuration reads and writes with any data and byte enables to all registers of endpoint and bridge headers and capabilities.",
  "Tests touch a few control bits through the enumeration code; attributes of most fields and byte-enable handling are never observed.",
  [C+"function.py", C+"bridge.py", C+"caps/common.py", C+"caps/pcie.py", C+"caps/msi.py", C+"caps/pm.py", C+"caps/aer.py"],
  [("type 0/1 header registers", C+"function.py, "+C+"bridge.py"), ("capability registers", C+"caps/*.py")],
  ["configuration reads after configuration writes"])
p("C16", "Capability lists are well formed and contain each capability once",
  "For any set of capabilities registered on (or removed from) a function, walking the standard list from the capabilities pointer and the extended list from offset 0x100 terminates and visits each registered capability exactly once with its ID and version (and nothing else, except a null capability at 0x100 when no structure lies there); capability structures never overlap each other or the header, and the host's capability discovery finds the same set.",
  ["configurations", "histories"],
  "All sequences of registrations and removals with and without fixed offsets and any lengths.",
  "Tests register each capability set once, always in the same order with default offsets.",
  [C+"caps/common.py", C+"function.py", C+"pci.py"],
  [("offset allocation and linking", C+"caps/common.py CapList"), ("discovery", C+"pci.py")],
  ["configuration space read back"])
p("C17", "Each interrupt vector reaches exactly its own handler, once per signal",
  "For any number of MSI or MSI-X vectors requested by any functions, the allocated message addresses and data are correct and distinct between functions, and each signalled vector triggers exactly the event and handlers of that vector once and nothing else. Masked, disabled or out-of-range MSI vectors send no message, and one that was signalled while masked sends exactly one when it is unmasked. (Masking of MSI-X vectors is the business of the device logic that owns the table.)",
  ["configurations", "histories", "schedules"],
  "All allocation orders and counts, all capability variants (64-bit, per-vector masking, MSI-X tables), all interleavings of signals.",
  "Tests allocate interrupts for one function with full vector counts and signal each once.",
  [C+"msi.py", C+"pci.py", C+"caps/msi.py", C+"rc.py", X+"usp_model.py"],
  [("vector allocation", C+"msi.py alloc_vectors"), ("message dispatch", C+"msi.py MsiRegion"), ("message generation", C+"caps/msi.py issue_msi_interrupt/issue_msix_interrupt")],
  ["interrupt events and handlers at the host, message writes on links"])
p("C18", "Payload, request-size and tag settings are legal for the whole hierarchy",
  "After enumeration the payload size programmed into each function is supported by it and by everything on its path to the root complex, so that no TLP it sends there exceeds what any component it crosses supports; a root port is never left with a payload size that a function directly below it does not support; read request sizes and extended tags are only programmed where supported. Device control settings changed later take effect on the next requests.",
  ["configurations"],
  "All combinations of supported sizes and capabilities of the components in all topologies.",
  "All tested devices support the same sizes.",
  [C+"pci.py", C+"function.py", C+"caps/pcie.py", C+"rc.py"],
  [("max payload configuration", C+"pci.py configure_mps"), ("extended tag and serr setup", C+"pci.py")],
  ["device control registers, TLP sizes on links"])
p("C19", "TLPs and DLLPs encode to the PCIe wire format and decode back unchanged",
  "Every valid memory, I/O, configuration, atomic or completion TLP and every ACK/NAK, flow-control, data-link-feature, NOP and power-management DLLP packs to exactly the header layout, payload byte order and checksum PCIe prescribes, and unpacking those bytes gives an equal packet; a corrupted DLLP checksum is rejected. Copies of a packet equal the original, size, credit and byte-enable figures match the packed form, and the validity check accepts exactly the well-formed packets. The UltraScale descriptors round-trip likewise.",
  ["inputs"],
  "All packet types and all values of every field.",
  "No test packs or unpacks headers with varied fields; inside the simulation packets travel as objects.",
  [C+"tlp.py", C+"dllp.py", X+"tlp.py"],
  [("TLP header pack/unpack", C+"tlp.py"), ("DLLP pack/unpack and CRC", C+"dllp.py"), ("descriptor pack/unpack", X+"tlp.py")],
  ["packed bytes and re-parsed packets"])
p("C20", "UltraScale stream interfaces carry every TLP intact under any back-pressure",
  "For each of the four UltraScale(+) stream interfaces, every bus width and straddle option, the sequence of TLPs received equals the sequence sent, with identical descriptors, payloads, byte enables and sideband information, whatever valid/ready stalls occur. On the bus, transfers obey the protocol: a presented beat stays unchanged until accepted, and keep, last, start/end markers, byte enables and parity describe the TLPs as the product guides prescribe.",
  ["schedules", "inputs", "configurations"],
  "All TLP sequences and sizes, all stall patterns on both sides, widths 64 to 512 with and without straddling.",
  "Tests use a few widths and rarely pause; straddling alignments combine rarely with stalls.",
  [X+"interface.py", X+"tlp.py"],
  [("sources and sinks", X+"interface.py")],
  ["interface signals per clock, packets at both ends"])
p("C21", "UltraScale requester interface handles tags and completions exactly",
  "Every request a user design issues appears on the PCIe link once, in order, with the described address, length and attributes and a tag no other outstanding request uses, and tags in internal mode are reported to the user in request order. Requests that cannot be sent for want of a tag are sent as soon as tags return. Every completion for them is passed to the user exactly once, unless the completion buffer is full (which is reported), with correct address, error code and request-completed flag, and completions for unknown tags are flagged and never attributed to a live request.",
  ["schedules", "histories", "inputs"],
  "All request streams in client-tag and internal-tag mode, all completion orders, splits, statuses and back-pressure.",
  "Tests run small numbers of well-behaved requests and never exhaust tags or provoke completion errors.",
  [X+"usp_model.py", X+"us_model.py"],
  [("RQ and RC logic", X+"usp_model.py _run_rq_logic/_run_rc_logic and tag allocation")],
  ["RQ/RC interface signals, TLPs on the link"])
p("C22", "UltraScale completer interface: every request is delivered once under NP credit",
  "Every request addressed to the device is presented to the user exactly once and in order with right target function, BAR and aperture; non-posted requests are presented only as far as the user has granted non-posted credits while posted requests continue to flow. Every completion the user supplies is sent to the requester unchanged.",
  ["schedules", "histories", "configurations"],
  "All request mixes, credit grant patterns, functions, BARs and back-pressure.",
  "Tests grant unlimited non-posted credit and use one function and a BAR or two.",
  [X+"usp_model.py", X+"us_model.py"],
  [("CQ/CC logic and non-posted credit counter", X+"usp_model.py")],
  ["CQ/CC interface signals, TLPs on the link"])
p("C23", "UltraScale config, status and interrupt interfaces mirror device state",
  "Management-port reads and writes act on the addressed function's configuration registers with byte-enable semantics and read back the true value, status outputs always reflect the current configuration state of each function, and flow-control outputs show the selected credit figures. Each interrupt request accepted on the interface produces exactly one correct message and a sent indication, or a failure indication and no message.",
  ["inputs", "histories"],
  "All register addresses, byte enables, functions and configuration histories; all interrupt vectors and enable states.",
  "Tests read one register and send one interrupt per vector on one function.",
  [X+"usp_model.py", X+"us_model.py"],
  [("management, status, flow-control and interrupt logic", X+"usp_model.py")],
  ["interface signals, configuration space, message writes on the link"])
p("C24", "Intel stream interfaces carry every TLP intact under any back-pressure",
  "For the Stratix 10 and P-Tile receive and transmit interfaces, every segment count and ready latency, the sequence of TLPs received equals the sequence sent, with identical headers, payloads and sideband information, whatever stalls occur. On the bus, start/end markers, empty counts and parity describe the TLPs exactly and data is only presented within the permitted ready latency.",
  ["schedules", "inputs", "configurations"],
  "All TLP sequences and sizes, all stall patterns, all widths/segment counts.",
  "Tests use a few widths and rarely pause.",
  [S+"interface.py", T+"interface.py"],
  [("sources and sinks", S+"interface.py, "+T+"interface.py")],
  ["interface signals per clock, packets at both ends"])
p("C25", "Intel hard-IP models bridge link and user interface without loss",
  "Every TLP from the link addressed to the device appears exactly once and in order on the user receive interface with correct BAR and function information, and every TLP the user supplies is sent on the link exactly once, unchanged and in order. Interrupt, configuration-shadow and credit outputs of the model reflect the true configuration state.",
  ["schedules", "histories", "configurations"],
  "All traffic mixes, functions, BARs, stalls and configuration histories.",
  "Tests run short transfers with one function, without back-pressure on the receive side.",
  [S+"s10_model.py", T+"ptile_model.py"],
  [("receive/transmit logic, configuration output, MSI", S+"s10_model.py, "+T+"ptile_model.py")],
  ["user interface signals, TLPs on the link"])

p("C26", "Host configuration accesses touch exactly the bytes addressed",
  "A configuration or capability access of the host software, through the root complex or a discovered device and with any of the byte, word, dword, qword or list accessors in either byte order, reads or writes exactly the bytes addressed in exactly the function addressed, in ascending order and with no other byte enabled, and returns what the registers gave. Capability accesses are relative to the capability found; one for a capability the function does not have fails. A read that no function answers successfully in time gives all ones; a retry status on the first register gives 0x0001 with all ones above it where retry status is visible to software and all ones elsewhere.",
  ["inputs", "histories", "configurations"],
  "All offsets, lengths, word sizes, byte orders, entry points, functions and parallel accesses to several functions, in any hierarchy.",
  "Tests read a few registers; most accessors and unaligned or failing accesses are never exercised.",
  [C+"rc.py", C+"pci.py", C+"function.py", C+"bridge.py", C+"device.py", C+"tlp.py"],
  [("configuration and capability accessors", C+"rc.py config_*/capability_*, "+C+"pci.py PciDevice.config_*/capability_*"), ("request handling at the function", C+"function.py handle_config_*")],
  ["results of the accessors", "register accesses at the functions"])

p("C27", "Status registers record exactly the errors seen at their interface",
  "Completer aborts signalled or received, unsupported-request completions received, and poisoned writes sent or poisoned completions received while parity error response is enabled set the corresponding bit (signalled/received target abort, received master abort, master data parity error) in the status register of the function concerned, and in the primary or secondary status register of a bridge the TLP passes in the corresponding direction - in no other function, side or bit. A bit once set stays set until 1 is written to it, and such a write clears no other bit.",
  ["histories", "configurations", "inputs"],
  "All sequences of normal, failing and poisoned requests and completions between all functions in any hierarchy, all parity error response settings, and clears in between.",
  "Tests never read a status register after an error.",
  [C+"function.py", C+"bridge.py"],
  [("send/receive paths", C+"function.py upstream_send/upstream_recv/send, "+C+"bridge.py upstream_*/downstream_*/send"), ("status registers", C+"function.py read/write_config_register, "+C+"bridge.py")],
  ["status and secondary status registers read by the host"])

p("C28", "A link carries one packet at a time at exactly the negotiated rate",
  "Two connected ports work at the lower of their maximum speeds and the lower of their maximum widths (a port without a maximum follows the other), whichever of them connects. In each direction the link carries one packet at a time: a packet of n bytes on the wire (TLP: header and payload plus 8, DLLP: 8) keeps it busy for n byte times of that speed, coding and width and arrives the sum of both port delays later. So no traffic ever exceeds the capacity of the link, and a TLP that has credit and is first in line waits for nothing but the packets before it.",
  ["schedules", "configurations"],
  "All speeds, widths and delays of both ports, and all patterns of TLPs of all sizes and classes and of DLLPs in both directions.",
  "Tests never look at the time a packet takes.",
  [C+"port.py", C+"tlp.py", C+"dllp.py"],
  [("link negotiation and timing", C+"port.py SimPort._connect_int/handle_tx/_transmit, PCIE_GEN_RATE"), ("wire sizes", C+"tlp.py get_wire_size, "+C+"dllp.py get_wire_size")],
  ["hand-over and arrival times of TLPs and DLLPs", "negotiated speed and width"])

p("C29", "Enabling a function readies its whole path; only the last disable undoes it",
  "When the host enables a function of a discovered hierarchy for the first time, the function decodes memory and I/O, and every bridge above it does so too and has bus mastering on (unless the host later disables that bridge or clears its bus mastering itself), whatever was enabled before and in whatever order. Enabling is counted: repeated enables change nothing, and only the disable that balances the last enable takes bus mastering away. Setting and clearing bus mastering affects exactly the function asked for. None of these operations changes any other function or any other bit of the command register.",
  ["histories", "configurations"],
  "All sequences of enabling, disabling and bus master operations on functions and bridges of any hierarchy, from any contents of the command registers.",
  "Tests enable each device once.",
  [C+"pci.py"],
  [("enabling", C+"pci.py PciDevice.enable_bridge/enable_device/disable_device/set_master/clear_master")],
  ["command registers of all functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
