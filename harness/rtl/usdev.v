`timescale 1ns / 1ps
// every signal of the UltraScale (u_) and UltraScale+ (p_) hard IP models, and one set of streams per width
module vf_top;
    reg u_user_clk = 0;
    reg u_user_reset = 0;
    reg u_user_lnk_up = 0;
    reg u_sys_clk = 0;
    reg u_sys_clk_gt = 0;
    reg u_sys_reset = 0;
    reg u_pcie_perstn1_in = 0;
    reg u_pcie_perstn0_out = 0;
    reg u_pcie_perstn1_out = 0;
    reg u_phy_rdy_out = 0;
    reg [3:0] u_pcie_rq_seq_num = 0;
    reg u_pcie_rq_seq_num_vld = 0;
    reg [5:0] u_pcie_rq_tag = 0;
    reg [1:0] u_pcie_rq_tag_av = 0;
    reg u_pcie_rq_tag_vld = 0;
    reg u_pcie_cq_np_req = 0;
    reg [5:0] u_pcie_cq_np_req_count = 0;
    reg [1:0] u_pcie_tfc_nph_av = 0;
    reg [1:0] u_pcie_tfc_npd_av = 0;
    reg [18:0] u_cfg_mgmt_addr = 0;
    reg u_cfg_mgmt_write = 0;
    reg [31:0] u_cfg_mgmt_write_data = 0;
    reg [3:0] u_cfg_mgmt_byte_enable = 0;
    reg u_cfg_mgmt_read = 0;
    reg [31:0] u_cfg_mgmt_read_data = 0;
    reg u_cfg_mgmt_read_write_done = 0;
    reg u_cfg_mgmt_type1_cfg_reg_access = 0;
    reg u_cfg_phy_link_down = 0;
    reg [1:0] u_cfg_phy_link_status = 0;
    reg [3:0] u_cfg_negotiated_width = 0;
    reg [2:0] u_cfg_current_speed = 0;
    reg [2:0] u_cfg_max_payload = 0;
    reg [2:0] u_cfg_max_read_req = 0;
    reg [15:0] u_cfg_function_status = 0;
    reg [15:0] u_cfg_vf_status = 0;
    reg [11:0] u_cfg_function_power_state = 0;
    reg [23:0] u_cfg_vf_power_state = 0;
    reg [1:0] u_cfg_link_power_state = 0;
    reg u_cfg_err_cor_out = 0;
    reg u_cfg_err_nonfatal_out = 0;
    reg u_cfg_err_fatal_out = 0;
    reg u_cfg_local_error = 0;
    reg u_cfg_ltr_enable = 0;
    reg [5:0] u_cfg_ltssm_state = 0;
    reg [3:0] u_cfg_rcb_status = 0;
    reg [3:0] u_cfg_dpa_substate_change = 0;
    reg [1:0] u_cfg_obff_enable = 0;
    reg u_cfg_pl_status_change = 0;
    reg [3:0] u_cfg_tph_requester_enable = 0;
    reg [11:0] u_cfg_tph_st_mode = 0;
    reg [7:0] u_cfg_vf_tph_requester_enable = 0;
    reg [23:0] u_cfg_vf_tph_st_mode = 0;
    reg u_cfg_msg_received = 0;
    reg [7:0] u_cfg_msg_received_data = 0;
    reg [4:0] u_cfg_msg_received_type = 0;
    reg u_cfg_msg_transmit = 0;
    reg [2:0] u_cfg_msg_transmit_type = 0;
    reg [31:0] u_cfg_msg_transmit_data = 0;
    reg u_cfg_msg_transmit_done = 0;
    reg [7:0] u_cfg_fc_ph = 0;
    reg [11:0] u_cfg_fc_pd = 0;
    reg [7:0] u_cfg_fc_nph = 0;
    reg [11:0] u_cfg_fc_npd = 0;
    reg [7:0] u_cfg_fc_cplh = 0;
    reg [11:0] u_cfg_fc_cpld = 0;
    reg [2:0] u_cfg_fc_sel = 0;
    reg [2:0] u_cfg_per_func_status_control = 0;
    reg [15:0] u_cfg_per_func_status_data = 0;
    reg [3:0] u_cfg_per_function_number = 0;
    reg u_cfg_per_function_output_request = 0;
    reg u_cfg_per_function_update_done = 0;
    reg u_cfg_hot_reset_in = 0;
    reg u_cfg_hot_reset_out = 0;
    reg u_cfg_config_space_enable = 0;
    reg [63:0] u_cfg_dsn = 0;
    reg [7:0] u_cfg_ds_port_number = 0;
    reg [7:0] u_cfg_ds_bus_number = 0;
    reg [4:0] u_cfg_ds_device_number = 0;
    reg [2:0] u_cfg_ds_function_number = 0;
    reg [15:0] u_cfg_subsys_vend_id = 0;
    reg u_cfg_power_state_change_ack = 0;
    reg u_cfg_power_state_change_interrupt = 0;
    reg u_cfg_err_cor_in = 0;
    reg u_cfg_err_uncor_in = 0;
    reg [3:0] u_cfg_flr_done = 0;
    reg [7:0] u_cfg_vf_flr_done = 0;
    reg [3:0] u_cfg_flr_in_process = 0;
    reg [7:0] u_cfg_vf_flr_in_process = 0;
    reg u_cfg_req_pm_transition_l23_ready = 0;
    reg u_cfg_link_training_enable = 0;
    reg [3:0] u_cfg_interrupt_int = 0;
    reg u_cfg_interrupt_sent = 0;
    reg [3:0] u_cfg_interrupt_pending = 0;
    reg [3:0] u_cfg_interrupt_msi_enable = 0;
    reg [7:0] u_cfg_interrupt_msi_vf_enable = 0;
    reg [11:0] u_cfg_interrupt_msi_mmenable = 0;
    reg u_cfg_interrupt_msi_mask_update = 0;
    reg [31:0] u_cfg_interrupt_msi_data = 0;
    reg [3:0] u_cfg_interrupt_msi_select = 0;
    reg [31:0] u_cfg_interrupt_msi_int = 0;
    reg [31:0] u_cfg_interrupt_msi_pending_status = 0;
    reg u_cfg_interrupt_msi_pending_status_data_enable = 0;
    reg [3:0] u_cfg_interrupt_msi_pending_status_function_num = 0;
    reg u_cfg_interrupt_msi_sent = 0;
    reg u_cfg_interrupt_msi_fail = 0;
    reg [1:0] u_cfg_interrupt_msix_enable = 0;
    reg [1:0] u_cfg_interrupt_msix_mask = 0;
    reg [7:0] u_cfg_interrupt_msix_vf_enable = 0;
    reg [7:0] u_cfg_interrupt_msix_vf_mask = 0;
    reg [63:0] u_cfg_interrupt_msix_address = 0;
    reg [31:0] u_cfg_interrupt_msix_data = 0;
    reg u_cfg_interrupt_msix_int = 0;
    reg [1:0] u_cfg_interrupt_msix_vec_pending = 0;
    reg u_cfg_interrupt_msix_vec_pending_status = 0;
    reg u_cfg_interrupt_msix_sent = 0;
    reg u_cfg_interrupt_msix_fail = 0;
    reg [2:0] u_cfg_interrupt_msi_attr = 0;
    reg u_cfg_interrupt_msi_tph_present = 0;
    reg [1:0] u_cfg_interrupt_msi_tph_type = 0;
    reg [8:0] u_cfg_interrupt_msi_tph_st_tag = 0;
    reg [3:0] u_cfg_interrupt_msi_function_number = 0;
    reg u_cfg_ext_read_received = 0;
    reg u_cfg_ext_write_received = 0;
    reg [9:0] u_cfg_ext_register_number = 0;
    reg [7:0] u_cfg_ext_function_number = 0;
    reg [31:0] u_cfg_ext_write_data = 0;
    reg [3:0] u_cfg_ext_write_byte_enable = 0;
    reg [31:0] u_cfg_ext_read_data = 0;
    reg u_cfg_ext_read_data_valid = 0;
    reg p_user_clk = 0;
    reg p_user_reset = 0;
    reg p_user_lnk_up = 0;
    reg p_sys_clk = 0;
    reg p_sys_clk_gt = 0;
    reg p_sys_reset = 0;
    reg p_phy_rdy_out = 0;
    reg [5:0] p_pcie_rq_seq_num0 = 0;
    reg p_pcie_rq_seq_num_vld0 = 0;
    reg [5:0] p_pcie_rq_seq_num1 = 0;
    reg p_pcie_rq_seq_num_vld1 = 0;
    reg [7:0] p_pcie_rq_tag0 = 0;
    reg [7:0] p_pcie_rq_tag1 = 0;
    reg [3:0] p_pcie_rq_tag_av = 0;
    reg p_pcie_rq_tag_vld0 = 0;
    reg p_pcie_rq_tag_vld1 = 0;
    reg [1:0] p_pcie_cq_np_req = 0;
    reg [5:0] p_pcie_cq_np_req_count = 0;
    reg [3:0] p_pcie_tfc_nph_av = 0;
    reg [3:0] p_pcie_tfc_npd_av = 0;
    reg [9:0] p_cfg_mgmt_addr = 0;
    reg [7:0] p_cfg_mgmt_function_number = 0;
    reg p_cfg_mgmt_write = 0;
    reg [31:0] p_cfg_mgmt_write_data = 0;
    reg [3:0] p_cfg_mgmt_byte_enable = 0;
    reg p_cfg_mgmt_read = 0;
    reg [31:0] p_cfg_mgmt_read_data = 0;
    reg p_cfg_mgmt_read_write_done = 0;
    reg p_cfg_mgmt_debug_access = 0;
    reg p_cfg_phy_link_down = 0;
    reg [1:0] p_cfg_phy_link_status = 0;
    reg [2:0] p_cfg_negotiated_width = 0;
    reg [1:0] p_cfg_current_speed = 0;
    reg [2:0] p_cfg_max_read_req = 0;
    reg [15:0] p_cfg_function_status = 0;
    reg [503:0] p_cfg_vf_status = 0;
    reg [11:0] p_cfg_function_power_state = 0;
    reg [755:0] p_cfg_vf_power_state = 0;
    reg [1:0] p_cfg_link_power_state = 0;
    reg p_cfg_err_cor_out = 0;
    reg p_cfg_err_nonfatal_out = 0;
    reg p_cfg_err_fatal_out = 0;
    reg [4:0] p_cfg_local_error_out = 0;
    reg p_cfg_local_error_valid = 0;
    reg [1:0] p_cfg_rx_pm_state = 0;
    reg [1:0] p_cfg_tx_pm_state = 0;
    reg [5:0] p_cfg_ltssm_state = 0;
    reg [3:0] p_cfg_rcb_status = 0;
    reg [1:0] p_cfg_obff_enable = 0;
    reg p_cfg_pl_status_change = 0;
    reg [3:0] p_cfg_tph_requester_enable = 0;
    reg [11:0] p_cfg_tph_st_mode = 0;
    reg [251:0] p_cfg_vf_tph_requester_enable = 0;
    reg [755:0] p_cfg_vf_tph_st_mode = 0;
    reg p_cfg_msg_received = 0;
    reg [7:0] p_cfg_msg_received_data = 0;
    reg [4:0] p_cfg_msg_received_type = 0;
    reg p_cfg_msg_transmit = 0;
    reg [2:0] p_cfg_msg_transmit_type = 0;
    reg [31:0] p_cfg_msg_transmit_data = 0;
    reg p_cfg_msg_transmit_done = 0;
    reg [7:0] p_cfg_fc_ph = 0;
    reg [11:0] p_cfg_fc_pd = 0;
    reg [7:0] p_cfg_fc_nph = 0;
    reg [11:0] p_cfg_fc_npd = 0;
    reg [7:0] p_cfg_fc_cplh = 0;
    reg [11:0] p_cfg_fc_cpld = 0;
    reg [2:0] p_cfg_fc_sel = 0;
    reg p_cfg_hot_reset_in = 0;
    reg p_cfg_hot_reset_out = 0;
    reg p_cfg_config_space_enable = 0;
    reg [63:0] p_cfg_dsn = 0;
    reg [7:0] p_cfg_bus_number = 0;
    reg [7:0] p_cfg_ds_port_number = 0;
    reg [7:0] p_cfg_ds_bus_number = 0;
    reg [4:0] p_cfg_ds_device_number = 0;
    reg [2:0] p_cfg_ds_function_number = 0;
    reg p_cfg_power_state_change_ack = 0;
    reg p_cfg_power_state_change_interrupt = 0;
    reg p_cfg_err_cor_in = 0;
    reg p_cfg_err_uncor_in = 0;
    reg [3:0] p_cfg_flr_in_process = 0;
    reg [3:0] p_cfg_flr_done = 0;
    reg [251:0] p_cfg_vf_flr_in_process = 0;
    reg [7:0] p_cfg_vf_flr_func_num = 0;
    reg p_cfg_vf_flr_done = 0;
    reg p_cfg_pm_aspm_l1_entry_reject = 0;
    reg p_cfg_pm_aspm_tx_l0s_entry_disable = 0;
    reg p_cfg_req_pm_transition_l23_ready = 0;
    reg p_cfg_link_training_enable = 0;
    reg [3:0] p_cfg_interrupt_int = 0;
    reg p_cfg_interrupt_sent = 0;
    reg [3:0] p_cfg_interrupt_pending = 0;
    reg [3:0] p_cfg_interrupt_msi_enable = 0;
    reg [11:0] p_cfg_interrupt_msi_mmenable = 0;
    reg p_cfg_interrupt_msi_mask_update = 0;
    reg [31:0] p_cfg_interrupt_msi_data = 0;
    reg [1:0] p_cfg_interrupt_msi_select = 0;
    reg [31:0] p_cfg_interrupt_msi_int = 0;
    reg [31:0] p_cfg_interrupt_msi_pending_status = 0;
    reg p_cfg_interrupt_msi_pending_status_data_enable = 0;
    reg [1:0] p_cfg_interrupt_msi_pending_status_function_num = 0;
    reg p_cfg_interrupt_msi_fail = 0;
    reg p_cfg_interrupt_msi_sent = 0;
    reg [3:0] p_cfg_interrupt_msix_enable = 0;
    reg [3:0] p_cfg_interrupt_msix_mask = 0;
    reg [251:0] p_cfg_interrupt_msix_vf_enable = 0;
    reg [251:0] p_cfg_interrupt_msix_vf_mask = 0;
    reg [63:0] p_cfg_interrupt_msix_address = 0;
    reg [31:0] p_cfg_interrupt_msix_data = 0;
    reg p_cfg_interrupt_msix_int = 0;
    reg [1:0] p_cfg_interrupt_msix_vec_pending = 0;
    reg p_cfg_interrupt_msix_vec_pending_status = 0;
    reg p_cfg_interrupt_msix_sent = 0;
    reg p_cfg_interrupt_msix_fail = 0;
    reg [2:0] p_cfg_interrupt_msi_attr = 0;
    reg p_cfg_interrupt_msi_tph_present = 0;
    reg [1:0] p_cfg_interrupt_msi_tph_type = 0;
    reg [7:0] p_cfg_interrupt_msi_tph_st_tag = 0;
    reg [7:0] p_cfg_interrupt_msi_function_number = 0;
    reg p_cfg_ext_read_received = 0;
    reg p_cfg_ext_write_received = 0;
    reg [9:0] p_cfg_ext_register_number = 0;
    reg [7:0] p_cfg_ext_function_number = 0;
    reg [31:0] p_cfg_ext_write_data = 0;
    reg [3:0] p_cfg_ext_write_byte_enable = 0;
    reg [31:0] p_cfg_ext_read_data = 0;
    reg p_cfg_ext_read_data_valid = 0;
    reg [1:0] p_cfg_max_payload = 0;
    reg [2:0] p_cfg_max_payload3 = 0;
    reg [63:0] u64_rq_tdata = 0;
    reg [1:0] u64_rq_tkeep = 0;
    reg [59:0] u64_rq_tuser = 0;
    reg u64_rq_tvalid = 0;
    reg u64_rq_tready = 0;
    reg u64_rq_tlast = 0;
    reg [63:0] u64_rc_tdata = 0;
    reg [1:0] u64_rc_tkeep = 0;
    reg [74:0] u64_rc_tuser = 0;
    reg u64_rc_tvalid = 0;
    reg u64_rc_tready = 0;
    reg u64_rc_tlast = 0;
    reg [63:0] u64_cq_tdata = 0;
    reg [1:0] u64_cq_tkeep = 0;
    reg [84:0] u64_cq_tuser = 0;
    reg u64_cq_tvalid = 0;
    reg u64_cq_tready = 0;
    reg u64_cq_tlast = 0;
    reg [63:0] u64_cc_tdata = 0;
    reg [1:0] u64_cc_tkeep = 0;
    reg [32:0] u64_cc_tuser = 0;
    reg u64_cc_tvalid = 0;
    reg u64_cc_tready = 0;
    reg u64_cc_tlast = 0;
    reg [127:0] u128_rq_tdata = 0;
    reg [3:0] u128_rq_tkeep = 0;
    reg [59:0] u128_rq_tuser = 0;
    reg u128_rq_tvalid = 0;
    reg u128_rq_tready = 0;
    reg u128_rq_tlast = 0;
    reg [127:0] u128_rc_tdata = 0;
    reg [3:0] u128_rc_tkeep = 0;
    reg [74:0] u128_rc_tuser = 0;
    reg u128_rc_tvalid = 0;
    reg u128_rc_tready = 0;
    reg u128_rc_tlast = 0;
    reg [127:0] u128_cq_tdata = 0;
    reg [3:0] u128_cq_tkeep = 0;
    reg [84:0] u128_cq_tuser = 0;
    reg u128_cq_tvalid = 0;
    reg u128_cq_tready = 0;
    reg u128_cq_tlast = 0;
    reg [127:0] u128_cc_tdata = 0;
    reg [3:0] u128_cc_tkeep = 0;
    reg [32:0] u128_cc_tuser = 0;
    reg u128_cc_tvalid = 0;
    reg u128_cc_tready = 0;
    reg u128_cc_tlast = 0;
    reg [255:0] u256_rq_tdata = 0;
    reg [7:0] u256_rq_tkeep = 0;
    reg [59:0] u256_rq_tuser = 0;
    reg u256_rq_tvalid = 0;
    reg u256_rq_tready = 0;
    reg u256_rq_tlast = 0;
    reg [255:0] u256_rc_tdata = 0;
    reg [7:0] u256_rc_tkeep = 0;
    reg [74:0] u256_rc_tuser = 0;
    reg u256_rc_tvalid = 0;
    reg u256_rc_tready = 0;
    reg u256_rc_tlast = 0;
    reg [255:0] u256_cq_tdata = 0;
    reg [7:0] u256_cq_tkeep = 0;
    reg [84:0] u256_cq_tuser = 0;
    reg u256_cq_tvalid = 0;
    reg u256_cq_tready = 0;
    reg u256_cq_tlast = 0;
    reg [255:0] u256_cc_tdata = 0;
    reg [7:0] u256_cc_tkeep = 0;
    reg [32:0] u256_cc_tuser = 0;
    reg u256_cc_tvalid = 0;
    reg u256_cc_tready = 0;
    reg u256_cc_tlast = 0;
    reg [63:0] p64_rq_tdata = 0;
    reg [1:0] p64_rq_tkeep = 0;
    reg [61:0] p64_rq_tuser = 0;
    reg p64_rq_tvalid = 0;
    reg p64_rq_tready = 0;
    reg p64_rq_tlast = 0;
    reg [63:0] p64_rc_tdata = 0;
    reg [1:0] p64_rc_tkeep = 0;
    reg [74:0] p64_rc_tuser = 0;
    reg p64_rc_tvalid = 0;
    reg p64_rc_tready = 0;
    reg p64_rc_tlast = 0;
    reg [63:0] p64_cq_tdata = 0;
    reg [1:0] p64_cq_tkeep = 0;
    reg [87:0] p64_cq_tuser = 0;
    reg p64_cq_tvalid = 0;
    reg p64_cq_tready = 0;
    reg p64_cq_tlast = 0;
    reg [63:0] p64_cc_tdata = 0;
    reg [1:0] p64_cc_tkeep = 0;
    reg [32:0] p64_cc_tuser = 0;
    reg p64_cc_tvalid = 0;
    reg p64_cc_tready = 0;
    reg p64_cc_tlast = 0;
    reg [127:0] p128_rq_tdata = 0;
    reg [3:0] p128_rq_tkeep = 0;
    reg [61:0] p128_rq_tuser = 0;
    reg p128_rq_tvalid = 0;
    reg p128_rq_tready = 0;
    reg p128_rq_tlast = 0;
    reg [127:0] p128_rc_tdata = 0;
    reg [3:0] p128_rc_tkeep = 0;
    reg [74:0] p128_rc_tuser = 0;
    reg p128_rc_tvalid = 0;
    reg p128_rc_tready = 0;
    reg p128_rc_tlast = 0;
    reg [127:0] p128_cq_tdata = 0;
    reg [3:0] p128_cq_tkeep = 0;
    reg [87:0] p128_cq_tuser = 0;
    reg p128_cq_tvalid = 0;
    reg p128_cq_tready = 0;
    reg p128_cq_tlast = 0;
    reg [127:0] p128_cc_tdata = 0;
    reg [3:0] p128_cc_tkeep = 0;
    reg [32:0] p128_cc_tuser = 0;
    reg p128_cc_tvalid = 0;
    reg p128_cc_tready = 0;
    reg p128_cc_tlast = 0;
    reg [255:0] p256_rq_tdata = 0;
    reg [7:0] p256_rq_tkeep = 0;
    reg [61:0] p256_rq_tuser = 0;
    reg p256_rq_tvalid = 0;
    reg p256_rq_tready = 0;
    reg p256_rq_tlast = 0;
    reg [255:0] p256_rc_tdata = 0;
    reg [7:0] p256_rc_tkeep = 0;
    reg [74:0] p256_rc_tuser = 0;
    reg p256_rc_tvalid = 0;
    reg p256_rc_tready = 0;
    reg p256_rc_tlast = 0;
    reg [255:0] p256_cq_tdata = 0;
    reg [7:0] p256_cq_tkeep = 0;
    reg [87:0] p256_cq_tuser = 0;
    reg p256_cq_tvalid = 0;
    reg p256_cq_tready = 0;
    reg p256_cq_tlast = 0;
    reg [255:0] p256_cc_tdata = 0;
    reg [7:0] p256_cc_tkeep = 0;
    reg [32:0] p256_cc_tuser = 0;
    reg p256_cc_tvalid = 0;
    reg p256_cc_tready = 0;
    reg p256_cc_tlast = 0;
    reg [511:0] p512_rq_tdata = 0;
    reg [15:0] p512_rq_tkeep = 0;
    reg [136:0] p512_rq_tuser = 0;
    reg p512_rq_tvalid = 0;
    reg p512_rq_tready = 0;
    reg p512_rq_tlast = 0;
    reg [511:0] p512_rc_tdata = 0;
    reg [15:0] p512_rc_tkeep = 0;
    reg [160:0] p512_rc_tuser = 0;
    reg p512_rc_tvalid = 0;
    reg p512_rc_tready = 0;
    reg p512_rc_tlast = 0;
    reg [511:0] p512_cq_tdata = 0;
    reg [15:0] p512_cq_tkeep = 0;
    reg [182:0] p512_cq_tuser = 0;
    reg p512_cq_tvalid = 0;
    reg p512_cq_tready = 0;
    reg p512_cq_tlast = 0;
    reg [511:0] p512_cc_tdata = 0;
    reg [15:0] p512_cc_tkeep = 0;
    reg [80:0] p512_cc_tuser = 0;
    reg p512_cc_tvalid = 0;
    reg p512_cc_tready = 0;
    reg p512_cc_tlast = 0;
endmodule
