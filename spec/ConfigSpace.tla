----------------------------- MODULE ConfigSpace -----------------------------
(* Configuration space of a function as PCIe defines it: a table of fields
   (register, lowest bit, width, name, first bit of the named value, access),
   and the effect of one configuration write on one register.
   A register value is the set of the bits that are one.
   Access: "RO", "RW", "W1C" (write one to clear).                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Lane(en) == UNION {{8 * k + j : j \in 0..7} : k \in en}          \* bits of the enabled bytes

Write(old, data, en, rw, w1c) ==
  LET b == Lane(en) IN
  ((old \ (rw \cap b)) \cup (data \cap rw \cap b)) \ (data \cap w1c \cap b)

F(r, lo, w, n, a) == [r |-> r, lo |-> lo, w |-> w, n |-> n, ab |-> 0, a |-> a]
P(r, lo, w, n, ab, a) == [r |-> r, lo |-> lo, w |-> w, n |-> n, ab |-> ab, a |-> a]
K(r, lo, w, v) == [r |-> r, lo |-> lo, w |-> w, n |-> "#", ab |-> v, a |-> "RO"]      \* constant

Common == <<
  F(0, 0, 16, "vendor_id", "RO"), F(0, 16, 16, "device_id", "RO"),
  F(1, 0, 1, "io_space_enable", "RW"), F(1, 1, 1, "memory_space_enable", "RW"), F(1, 2, 1, "bus_master_enable", "RW"),
  F(1, 6, 1, "parity_error_response_enable", "RW"), F(1, 8, 1, "serr_enable", "RW"), F(1, 10, 1, "interrupt_disable", "RW"),
  F(1, 19, 1, "interrupt_status", "RO"), F(1, 20, 1, "capabilities_list", "RO"), F(1, 24, 1, "master_data_parity_error", "W1C"),
  F(1, 27, 1, "signaled_target_abort", "W1C"), F(1, 28, 1, "received_target_abort", "W1C"), F(1, 29, 1, "received_master_abort", "W1C"),
  F(1, 30, 1, "signaled_system_error", "W1C"), F(1, 31, 1, "detected_parity_error", "W1C"),
  F(2, 0, 8, "revision_id", "RO"), F(2, 8, 24, "class_code", "RO"),
  F(3, 0, 8, "cache_line_size", "RW"), F(3, 8, 8, "latency_timer", "RO"), F(3, 16, 7, "header_layout", "RO"), F(3, 23, 1, "multifunction_device", "RO"),
  F(3, 24, 4, "bist_completion_code", "RO"), F(3, 30, 1, "start_bist", "RW"), F(3, 31, 1, "bist_capable", "RO"),
  F(13, 0, 8, "capabilities_ptr", "RO"),
  F(15, 0, 8, "interrupt_line", "RW"), F(15, 8, 8, "interrupt_pin", "RO") >>

Type0 == <<F(11, 0, 16, "subsystem_vendor_id", "RO"), F(11, 16, 16, "subsystem_id", "RO")>>

Type1 == <<
  F(6, 0, 8, "pri_bus_num", "RW"), F(6, 8, 8, "sec_bus_num", "RW"), F(6, 16, 8, "sub_bus_num", "RW"), F(6, 24, 8, "sec_lat_timer", "RO"),
  F(7, 0, 4, "io_addr_capability", "RO"), P(7, 4, 4, "io_base", 12, "RW"), F(7, 8, 4, "io_addr_capability", "RO"), P(7, 12, 4, "io_limit", 12, "RW"),
  F(7, 24, 1, "sec_master_data_parity_error", "W1C"), F(7, 27, 1, "sec_signaled_target_abort", "W1C"), F(7, 28, 1, "sec_received_target_abort", "W1C"),
  F(7, 29, 1, "sec_received_master_abort", "W1C"), F(7, 30, 1, "sec_received_system_error", "W1C"), F(7, 31, 1, "sec_detected_parity_error", "W1C"),
  P(8, 4, 12, "mem_base", 20, "RW"), P(8, 20, 12, "mem_limit", 20, "RW"),
  K(9, 0, 1, 1), P(9, 4, 12, "prefetchable_mem_base", 20, "RW"), K(9, 16, 1, 1), P(9, 20, 12, "prefetchable_mem_limit", 20, "RW"),
  P(10, 0, 32, "prefetchable_mem_base", 32, "RW"), P(11, 0, 32, "prefetchable_mem_limit", 32, "RW"),
  P(12, 0, 16, "io_base", 16, "RW"), P(12, 16, 16, "io_limit", 16, "RW"),
  F(15, 16, 1, "bridge_parity_error_response_enable", "RW"), F(15, 17, 1, "bridge_serr_enable", "RW"), F(15, 22, 1, "secondary_bus_reset", "RW") >>

Pm == <<
  K(0, 0, 8, 1), F(0, 8, 8, "#next", "RO"),
  K(0, 16, 3, 3), F(0, 19, 1, "pme_clock", "RO"), F(0, 20, 1, "immediate_readiness_on_return_to_d0", "RO"),
  F(0, 21, 1, "device_specific_initialization", "RO"), F(0, 22, 3, "aux_current", "RO"), F(0, 25, 1, "d1_support", "RO"), F(0, 26, 1, "d2_support", "RO"),
  F(0, 27, 5, "pme_support", "RO"),
  F(1, 0, 2, "power_state", "RW"), F(1, 3, 1, "no_soft_reset", "RO"), F(1, 8, 1, "pme_enable", "RW"), F(1, 9, 4, "data_select", "RW"),
  F(1, 13, 2, "data_scale", "RW"), F(1, 15, 1, "pme_status", "W1C"), F(1, 24, 8, "pm_data", "RO") >>

Exp == <<
  K(0, 0, 8, 16), F(0, 8, 8, "#next", "RO"),
  K(0, 16, 4, 2), F(0, 20, 4, "pcie_device_type", "RO"), F(0, 24, 1, "pcie_slot_implemented", "RO"), F(0, 25, 5, "interrupt_message_number", "RO"),
  F(1, 0, 3, "max_payload_size_supported", "RO"), F(1, 3, 2, "phantom_functions_supported", "RO"), F(1, 5, 1, "extended_tag_supported", "RO"),
  F(1, 6, 3, "endpoint_l0s_acceptable_latency", "RO"), F(1, 9, 3, "endpoint_l1_acceptable_latency", "RO"), F(1, 15, 1, "role_based_error_reporting", "RO"),
  F(1, 18, 8, "captured_slot_power_limit_value", "RO"), F(1, 26, 2, "captured_slot_power_limit_scale", "RO"), F(1, 28, 1, "function_level_reset_capability", "RO"),
  F(2, 0, 1, "correctable_error_reporting_enable", "RW"), F(2, 1, 1, "non_fatal_error_reporting_enable", "RW"), F(2, 2, 1, "fatal_error_reporting_enable", "RW"),
  F(2, 3, 1, "unsupported_request_reporting_enable", "RW"), F(2, 4, 1, "enable_relaxed_ordering", "RW"), F(2, 5, 3, "max_payload_size", "RW"),
  F(2, 8, 1, "extended_tag_field_enable", "RW"), F(2, 9, 1, "phantom_functions_enable", "RW"), F(2, 10, 1, "aux_power_pm_enable", "RW"),
  F(2, 11, 1, "enable_no_snoop", "RW"), F(2, 12, 3, "max_read_request_size", "RW"),
  F(2, 16, 1, "correctable_error_detected", "W1C"), F(2, 17, 1, "nonfatal_error_detected", "W1C"), F(2, 18, 1, "fatal_error_detected", "W1C"),
  F(2, 19, 1, "unsupported_request_detected", "W1C"), F(2, 20, 1, "aux_power_detected", "RO"), F(2, 21, 1, "transactions_pending", "RO"),
  F(2, 22, 1, "emergency_power_reduction_detected", "W1C"),
  F(3, 0, 4, "max_link_speed", "RO"), F(3, 4, 6, "max_link_width", "RO"), F(3, 10, 2, "aspm_support", "RO"), F(3, 12, 3, "l0s_exit_latency", "RO"),
  F(3, 15, 3, "l1_exit_latency", "RO"), F(3, 18, 1, "clock_power_management", "RO"), F(3, 19, 1, "surprise_down_error_reporting_capability", "RO"),
  F(3, 20, 1, "data_link_layer_link_active_reporting_capable", "RO"), F(3, 21, 1, "link_bandwidth_notification_capability", "RO"),
  F(3, 22, 1, "aspm_optionality_compliance", "RO"), F(3, 24, 8, "port_number", "RO"),
  F(4, 0, 2, "aspm_control", "RW"), F(4, 3, 1, "read_completion_boundary", "RW"), F(4, 4, 1, "link_disable", "RW"), F(4, 6, 1, "common_clock_configuration", "RW"),
  F(4, 7, 1, "extended_synch", "RW"), F(4, 8, 1, "enable_clock_power_management", "RW"), F(4, 9, 1, "hardware_autonomous_width_disable", "RW"),
  F(4, 10, 1, "link_bandwidth_management_interrupt_enable", "RW"), F(4, 11, 1, "link_autonomous_bandwidth_interrupt_enable", "RW"),
  F(4, 14, 2, "drs_signalling_control", "RW"), F(4, 16, 4, "current_link_speed", "RO"), F(4, 20, 6, "negotiated_link_width", "RO"),
  F(4, 27, 1, "link_training", "RO"), F(4, 28, 1, "slot_clock_configuration", "RO"), F(4, 29, 1, "data_link_layer_link_active", "RO"),
  F(4, 30, 1, "link_bandwidth_management_status", "W1C"), F(4, 31, 1, "link_autonomous_bandwidth_status", "W1C"),
  F(5, 0, 1, "attention_button_present", "RO"), F(5, 1, 1, "power_controller_present", "RO"), F(5, 2, 1, "mrl_sensor_present", "RO"),
  F(5, 3, 1, "attention_indicator_present", "RO"), F(5, 4, 1, "power_indicator_present", "RO"), F(5, 5, 1, "hot_plug_surprise", "RO"),
  F(5, 6, 1, "hot_plug_capable", "RO"), F(5, 7, 8, "slot_power_limit_value", "RO"), F(5, 15, 2, "slot_power_limit_scale", "RO"),
  F(5, 17, 1, "electromechanical_interlock_present", "RO"), F(5, 18, 1, "no_command_completed_support", "RO"), F(5, 19, 13, "physical_slot_number", "RO"),
  F(6, 0, 1, "attention_button_pressed_enable", "RW"), F(6, 1, 1, "power_fault_detected_enable", "RW"), F(6, 2, 1, "mrl_sensor_changed_enable", "RW"),
  F(6, 3, 1, "presence_detect_changed_enable", "RW"), F(6, 4, 1, "command_completed_interrupt_enable", "RW"), F(6, 5, 1, "hot_plug_interrupt_enable", "RW"),
  F(6, 6, 2, "attention_indicator_control", "RW"), F(6, 8, 2, "power_indicator_control", "RW"), F(6, 10, 1, "power_controller_control", "RW"),
  F(6, 11, 1, "electromechanical_interlock_control", "RW"), F(6, 12, 1, "data_link_layer_state_changed_enable", "RW"),
  F(6, 13, 1, "auto_slot_power_limit_disable", "RW"),
  F(6, 16, 1, "attention_button_pressed", "W1C"), F(6, 17, 1, "power_fault_detected", "W1C"), F(6, 18, 1, "mrl_sensor_changed", "W1C"),
  F(6, 19, 1, "presence_detect_changed", "W1C"), F(6, 20, 1, "command_completed", "W1C"), F(6, 21, 1, "mrl_sensor_state", "RO"),
  F(6, 22, 1, "presence_detect_state", "RO"), F(6, 23, 1, "electromechanical_interlock_status", "RO"), F(6, 24, 1, "data_link_layer_state_changed", "W1C"),
  F(7, 0, 1, "system_error_on_correctable_error_enable", "RW"), F(7, 1, 1, "system_error_on_non_fatal_error_enable", "RW"),
  F(7, 2, 1, "system_error_on_fatal_error_enable", "RW"), F(7, 3, 1, "pme_interrupt_enable", "RW"), F(7, 4, 1, "crs_software_visibility_enable", "RW"),
  F(7, 16, 1, "crs_software_visibility", "RO"),
  F(8, 0, 16, "pme_requester_id", "RO"), F(8, 16, 1, "pme_status", "W1C"), F(8, 17, 1, "pme_pending", "RO"),
  F(9, 0, 4, "completion_timeout_ranges_supported", "RO"), F(9, 4, 1, "completion_timeout_disable_supported", "RO"), F(9, 5, 1, "ari_forwarding_supported", "RO"),
  F(9, 6, 1, "atomic_op_forwarding_supported", "RO"), F(9, 7, 1, "atomic_op_32_bit_completer_supported", "RO"),
  F(9, 8, 1, "atomic_op_64_bit_completer_supported", "RO"), F(9, 9, 1, "cas_128_bit_completer_supported", "RO"), F(9, 10, 1, "no_ro_enabled_pr_pr_passing", "RO"),
  F(9, 11, 1, "ltr_mechanism_supported", "RO"), F(9, 12, 2, "tph_completer_supported", "RO"), F(9, 18, 2, "obff_supported", "RO"),
  F(9, 20, 1, "extended_fmt_field_supported", "RO"), F(9, 21, 1, "end_end_tlp_prefix_supported", "RO"), F(9, 22, 2, "max_end_end_tlp_prefix", "RO"),
  F(9, 24, 2, "emergency_power_reduction_supported", "RO"), F(9, 26, 1, "emergency_power_reduction_initialization_required", "RO"), F(9, 31, 1, "frs_supported", "RO"),
  F(10, 0, 4, "completion_timeout_value", "RW"), F(10, 4, 1, "completion_timeout_disable", "RW"), F(10, 5, 1, "ari_forwarding_enable", "RW"),
  F(10, 6, 1, "atomic_op_requester_enable", "RW"), F(10, 7, 1, "atomic_op_egress_blocking", "RW"), F(10, 8, 1, "ido_request_enable", "RW"),
  F(10, 9, 1, "ido_completion_enable", "RW"), F(10, 10, 1, "ltr_mechanism_enable", "RW"), F(10, 11, 1, "emergency_power_reduction_request", "RW"),
  F(10, 12, 1, "ten_bit_tag_requester_enable", "RW"), F(10, 13, 2, "obff_enable", "RW"), F(10, 15, 1, "end_end_tlp_prefix_blocking", "RW"),
  F(11, 1, 7, "supported_link_speeds", "RO"), F(11, 8, 1, "crosslink_supported", "RO"), F(11, 9, 7, "lower_skp_os_generation_supported_speeds", "RO"),
  F(11, 16, 7, "lower_skp_os_reception_supported_speeds", "RO"), F(11, 23, 1, "retimer_presence_detect_supported", "RO"),
  F(11, 24, 1, "two_retimers_presence_detect_supported", "RO"), F(11, 31, 1, "drs_supported", "RO"),
  F(12, 0, 4, "target_link_speed", "RW"), F(12, 4, 1, "enter_compliance", "RW"), F(12, 5, 1, "hardware_autonomous_speed_disable", "RW"),
  F(12, 6, 1, "selectable_deemphasis", "RO"), F(12, 7, 3, "transmit_margin", "RW"), F(12, 10, 1, "enter_modified_compliance", "RW"),
  F(12, 11, 1, "compliance_sos", "RW"), F(12, 12, 4, "compliance_preset_deemphasis", "RW"), F(12, 16, 1, "current_deemphasis_level", "RO"),
  F(12, 17, 1, "equalization_8gt_complete", "RO"), F(12, 18, 1, "equalization_8gt_phase_1_successful", "RO"),
  F(12, 19, 1, "equalization_8gt_phase_2_successful", "RO"), F(12, 20, 1, "equalization_8gt_phase_3_successful", "RO"),
  F(12, 21, 1, "link_equalization_8gt_request", "W1C"), F(12, 22, 1, "retimer_presence_detected", "RO"), F(12, 23, 1, "two_retimers_presence_detected", "RO"),
  F(12, 24, 2, "crosslink_resolution", "RO"), F(12, 28, 3, "downstream_component_presence", "RO"), F(12, 31, 1, "drs_message_received", "W1C") >>

\* message signalled interrupts: four layouts
Msi(a64, pvm, xd) ==
  LET d == IF a64 THEN 3 ELSE 2 IN
  << K(0, 0, 8, 5), F(0, 8, 8, "#next", "RO"),
     F(0, 16, 1, "msi_enable", "RW"), F(0, 17, 3, "msi_multiple_message_capable", "RO"), F(0, 20, 3, "msi_multiple_message_enable", "RW"),
     F(0, 23, 1, "msi_64bit_address_capable", "RO"), F(0, 24, 1, "msi_per_vector_mask_capable", "RO"), F(0, 25, 1, "msi_extended_message_data_capable", "RO"),
     F(0, 26, 1, "msi_extended_message_data_enable", IF xd THEN "RW" ELSE "RO"),
     P(1, 2, 30, "msi_message_address", 2, "RW"), F(d, 0, IF xd THEN 32 ELSE 16, "msi_message_data", "RW") >>
  \o (IF a64 THEN <<P(2, 0, 32, "msi_message_address", 32, "RW")>> ELSE << >>)
  \o (IF pvm THEN <<F(d + 1, 0, 32, "msi_mask_bits", "RW"), F(d + 2, 0, 32, "msi_pending_bits", "RO")>> ELSE << >>)

Msix == <<
  K(0, 0, 8, 17), F(0, 8, 8, "#next", "RO"), F(0, 16, 11, "msix_table_size", "RO"), F(0, 30, 1, "msix_function_mask", "RW"), F(0, 31, 1, "msix_enable", "RW"),
  F(1, 0, 3, "msix_table_bar_indicator_register", "RO"), P(1, 3, 29, "msix_table_offset", 3, "RO"),
  F(2, 0, 3, "msix_pba_bar_indicator_register", "RO"), P(2, 3, 29, "msix_pba_offset", 3, "RO") >>

ExtHdr(id, ver) == <<K(0, 0, 16, id), K(0, 16, 4, ver), F(0, 20, 12, "#next", "RO")>>

UncorrBits == << <<4, "data_link_protocol_error">>, <<5, "surprise_down_error">>, <<12, "poisoned_tlp_received">>, <<13, "flow_control_protocol_error">>,
  <<14, "completion_timeout">>, <<15, "completer_abort">>, <<16, "unexpected_completion">>, <<17, "receiver_overflow">>, <<18, "malformed_tlp">>,
  <<19, "ecrc_error">>, <<20, "unsupported_request_error">>, <<21, "acs_violation">>, <<22, "uncorrectable_internal_error">>, <<23, "mc_blocked_tlp">>,
  <<24, "atomicop_egress_blocked">>, <<25, "tlp_prefix_blocked_error">>, <<26, "poisoned_tlp_egress_blocked">> >>
CorrBits == << <<0, "receiver_error">>, <<6, "bad_tlp">>, <<7, "bad_dllp">>, <<8, "replay_num_rollover">>, <<12, "replay_timer_timeout">>,
  <<13, "advisory_nonfatal_error">>, <<14, "corrected_internal_error">>, <<15, "header_log_overflow">> >>
Bits(t, r, suffix, a) == [k \in DOMAIN t |-> F(r, t[k][1], 1, t[k][2] \o suffix, a)]
Aer == ExtHdr(1, 2) \o Bits(UncorrBits, 1, "_status", "W1C") \o Bits(UncorrBits, 2, "_mask", "RW") \o Bits(UncorrBits, 3, "_severity", "RW")
  \o Bits(CorrBits, 4, "_status", "W1C") \o Bits(CorrBits, 5, "_mask", "RW")
  \o << F(6, 0, 5, "first_error_pointer", "RO"), F(6, 5, 1, "ecrc_generation_capable", "RO"), F(6, 6, 1, "ecrc_generation_enable", "RW"),
        F(6, 7, 1, "ecrc_check_capable", "RO"), F(6, 8, 1, "ecrc_check_enable", "RW"), F(6, 9, 1, "multiple_header_recording_capable", "RO"),
        F(6, 10, 1, "multiple_header_recording_enable", "RW"), F(6, 11, 1, "tlp_prefix_log_present", "RO"),
        F(6, 12, 1, "completion_timeout_prefix_header_log_capable", "RO"),
        F(7, 0, 32, "header_log.0", "RO"), F(8, 0, 32, "header_log.1", "RO"), F(9, 0, 32, "header_log.2", "RO"), F(10, 0, 32, "header_log.3", "RO"),
        F(11, 0, 1, "correctable_error_reporting_enable", "RW"), F(11, 1, 1, "nonfatal_error_reporting_enable", "RW"), F(11, 2, 1, "fatal_error_reporting_enable", "RW"),
        F(12, 0, 1, "err_cor_received", "W1C"), F(12, 1, 1, "multiple_err_cor_received", "W1C"), F(12, 2, 1, "err_fatal_nonfatal_received", "W1C"),
        F(12, 3, 1, "multiple_err_fatal_nonfatal_received", "W1C"), F(12, 4, 1, "first_uncorrectable_fatal", "W1C"),
        F(12, 5, 1, "nonfatal_error_messages_received", "W1C"), F(12, 6, 1, "fatal_error_messages_received", "W1C"),
        F(12, 27, 5, "advanced_error_interrupt_message_number", "RO"),
        F(13, 0, 16, "err_cor_source_identification", "RO"), F(13, 16, 16, "err_fatal_nonfatal_source_identification", "RO"),
        F(14, 0, 32, "tlp_prefix_log.0", "RO"), F(15, 0, 32, "tlp_prefix_log.1", "RO"), F(16, 0, 32, "tlp_prefix_log.2", "RO"), F(17, 0, 32, "tlp_prefix_log.3", "RO") >>

Dig(k) == ToString(k)
LaneEq(r, l, lo) == << F(r, lo, 4, "downstream_port_8gt_transmitter_preset." \o Dig(l), "RO"), F(r, lo + 4, 3, "downstream_port_8gt_receiver_preset_hint." \o Dig(l), "RO"),
  F(r, lo + 8, 4, "upstream_port_8gt_transmitter_preset." \o Dig(l), "RO"), F(r, lo + 12, 3, "upstream_port_8gt_receiver_preset_hint." \o Dig(l), "RO") >>
RECURSIVE Lanes(_, _)
Lanes(k, n) == IF k >= n THEN << >> ELSE LaneEq(3 + k \div 2, k, 16 * (k % 2)) \o Lanes(k + 1, n)
\* the capability is as long as its owner makes it: length - 3 registers of two lanes each
Exp2(len) == ExtHdr(25, 1) \o << F(1, 0, 1, "perform_equalization", "RW"), F(1, 1, 1, "link_equalization_request_interrupt_enable", "RW"),
  F(1, 9, 7, "enable_lower_skp_os_generation", "RW"), F(2, 0, 32, "lane_error_status", "W1C") >> \o Lanes(0, 2 * (len - 3))

\* ------------------------------------------------------------ derived
RECURSIVE NumBits(_, _)
NumBits(v, k) == IF v = 0 THEN {} ELSE (IF v % 2 = 1 THEN {k} ELSE {}) \cup NumBits(v \div 2, k + 1)
Val(at, next, f) ==       \* the bits of a field, given the attribute values (name -> set of bits) of its owner
  IF f.n = "#" THEN {f.lo + b : b \in NumBits(f.ab, 0)}
  ELSE LET src == IF f.n = "#next" THEN next ELSE at[f.n]
           o == IF f.n = "#next" THEN 0 ELSE f.ab IN
       {f.lo + b - o : b \in {x \in src : o <= x /\ x < o + f.w}}
Mask(t, r, acc) == UNION {{t[k].lo + j : j \in 0..(t[k].w - 1)} : k \in {k \in DOMAIN t : t[k].r = r /\ t[k].a = acc}}
Regs(t) == {t[k].r : k \in DOMAIN t}
Start(t, at, next, r) == UNION {Val(at, next, t[k]) : k \in {k \in DOMAIN t : t[k].r = r}}
\* the registers of a structure at dword offset o: register -> value, writable bits, write-one-to-clear bits
Space(t, at, next, o) == [r \in {o + x : x \in Regs(t)} |->
  [v |-> Start(t, at, next, r - o), rw |-> Mask(t, r - o, "RW"), w1c |-> Mask(t, r - o, "W1C")]]
\* base address registers: index, log2 of the size, kind
Bars(bs, o) ==
  LET Low(b) == [v |-> (IF b.io THEN {0} ELSE (IF b.ext THEN {2} ELSE {}) \cup (IF b.pf THEN {3} ELSE {})), rw |-> {k \in 0..31 : k >= b.lg}, w1c |-> {}]
      High(b) == [v |-> {}, rw |-> {k \in 0..31 : k + 32 >= b.lg}, w1c |-> {}] IN
  [r \in {o + b.i : b \in bs} \cup {o + b.i + 1 : b \in {x \in bs : x.ext}} |->
    IF \E b \in bs : o + b.i = r THEN Low(CHOOSE b \in bs : o + b.i = r) ELSE High(CHOOSE b \in bs : o + b.i + 1 = r)]
Rom(lg, o) == IF lg = 0 THEN << >> ELSE (o :> [v |-> {}, rw |-> {0} \cup {k \in 0..31 : k >= lg}, w1c |-> {}])
Table(c) == CASE c.ty = "PM" -> Pm [] c.ty = "EXP" -> Exp [] c.ty = "MSI" -> Msi(c.a64, c.pvm, c.xd) [] c.ty = "MSIX" -> Msix
              [] c.ty = "AER" -> Aer [] c.ty = "EXP2" -> Exp2(c.len)
Known == {Common, Type0, Type1, Pm, Exp, Msi(TRUE, TRUE, TRUE), Msix, Aer, Exp2(4)}
=============================================================================
