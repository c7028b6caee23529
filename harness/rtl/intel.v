`timescale 1ns / 1ps
// stream interfaces of the Stratix 10 (s) and P-Tile (t) hard IP in several widths x segments, with and without (n) the optional signals,
// and every other signal of the hard IP models
module vf_top;
    reg clk = 0;
    reg rst = 0;
    reg s_npor = 0;
    reg s_pin_perst = 0;
    reg s_ninit_done = 0;
    reg s_pld_clk_inuse = 0;
    reg s_pld_core_ready = 0;
    reg s_reset_status = 0;
    reg s_clr_st = 0;
    reg s_refclk = 0;
    reg s_coreclkout_hip = 0;
    reg [7:0] s_tx_ph_cdts = 0;
    reg [11:0] s_tx_pd_cdts = 0;
    reg [7:0] s_tx_nph_cdts = 0;
    reg [7:0] s_tx_cplh_cdts = 0;
    reg [11:0] s_tx_npd_cdts = 0;
    reg [11:0] s_tx_cpld_cdts = 0;
    reg [10:0] s_int_status = 0;
    reg [2:0] s_int_status_common = 0;
    reg s_derr_cor_ext_rpl = 0;
    reg s_derr_rpl = 0;
    reg s_derr_cor_ext_rcv = 0;
    reg s_derr_uncor_ext_rcv = 0;
    reg s_rx_par_err = 0;
    reg s_tx_par_err = 0;
    reg [5:0] s_ltssmstate = 0;
    reg s_link_up = 0;
    reg [4:0] s_lane_act = 0;
    reg [1:0] s_currentspeed = 0;
    reg s_pm_linkst_in_l1 = 0;
    reg s_pm_linkst_in_l0s = 0;
    reg [2:0] s_pm_state = 0;
    reg [2:0] s_pm_dstate = 0;
    reg s_apps_pm_xmt_pme = 0;
    reg s_apps_ready_entr_l23 = 0;
    reg s_apps_pm_xmt_turnoff = 0;
    reg s_app_init_rst = 0;
    reg s_app_xfer_pending = 0;
    reg s_app_msi_req = 0;
    reg s_app_msi_ack = 0;
    reg [2:0] s_app_msi_tc = 0;
    reg [4:0] s_app_msi_num = 0;
    reg [1:0] s_app_msi_func_num = 0;
    reg [3:0] s_app_int_sts = 0;
    reg s_app_err_valid = 0;
    reg [31:0] s_app_err_hdr = 0;
    reg [10:0] s_app_err_info = 0;
    reg [1:0] s_app_err_func_num = 0;
    reg [1:0] s_tl_cfg_func = 0;
    reg [4:0] s_tl_cfg_add = 0;
    reg [31:0] s_tl_cfg_ctl = 0;
    reg s_ceb_req = 0;
    reg s_ceb_ack = 0;
    reg [11:0] s_ceb_addr = 0;
    reg [31:0] s_ceb_din = 0;
    reg [31:0] s_ceb_dout = 0;
    reg [3:0] s_ceb_wr = 0;
    reg [31:0] s_ceb_cdm_convert_data = 0;
    reg [1:0] s_ceb_func_num = 0;
    reg [10:0] s_ceb_vf_num = 0;
    reg s_ceb_vf_active = 0;
    reg s_hip_reconfig_clk = 0;
    reg s_hip_reconfig_rst_n = 0;
    reg [20:0] s_hip_reconfig_address = 0;
    reg s_hip_reconfig_read = 0;
    reg [7:0] s_hip_reconfig_readdata = 0;
    reg s_hip_reconfig_readdatavalid = 0;
    reg s_hip_reconfig_write = 0;
    reg [7:0] s_hip_reconfig_writedata = 0;
    reg s_hip_reconfig_waitrequest = 0;
    reg t_reset_status = 0;
    reg t_reset_status_n = 0;
    reg t_coreclkout_hip = 0;
    reg t_refclk0 = 0;
    reg t_refclk1 = 0;
    reg t_pin_perst_n = 0;
    reg t_rx_par_err = 0;
    reg t_tx_par_err = 0;
    reg [11:0] t_rx_buffer_limit = 0;
    reg [1:0] t_rx_buffer_limit_tdm_idx = 0;
    reg [15:0] t_tx_cdts_limit = 0;
    reg [2:0] t_tx_cdts_limit_tdm_idx = 0;
    reg t_link_up = 0;
    reg t_dl_up = 0;
    reg t_surprise_down_err = 0;
    reg [5:0] t_ltssm_state = 0;
    reg [2:0] t_pm_state = 0;
    reg [31:0] t_pm_dstate = 0;
    reg [7:0] t_apps_pm_xmt_pme = 0;
    reg [7:0] t_app_req_retry_en = 0;
    reg [7:0] t_app_int = 0;
    reg [2:0] t_msi_pnd_func = 0;
    reg [7:0] t_msi_pnd_byte = 0;
    reg [1:0] t_msi_pnd_addr = 0;
    reg t_serr_out = 0;
    reg t_hip_enter_err_mode = 0;
    reg t_app_err_valid = 0;
    reg [31:0] t_app_err_hdr = 0;
    reg [12:0] t_app_err_info = 0;
    reg [2:0] t_app_err_func_num = 0;
    reg t_cpl_timeout = 0;
    reg t_cpl_timeout_avmm_clk = 0;
    reg [2:0] t_cpl_timeout_avmm_address = 0;
    reg t_cpl_timeout_avmm_read = 0;
    reg [7:0] t_cpl_timeout_avmm_readdata = 0;
    reg t_cpl_timeout_avmm_readdatavalid = 0;
    reg t_cpl_timeout_avmm_write = 0;
    reg [7:0] t_cpl_timeout_avmm_writedata = 0;
    reg t_cpl_timeout_avmm_waitrequest = 0;
    reg [2:0] t_tl_cfg_func = 0;
    reg [4:0] t_tl_cfg_add = 0;
    reg [15:0] t_tl_cfg_ctl = 0;
    reg t_dl_timer_update = 0;
    reg t_cii_req = 0;
    reg t_cii_hdr_poisoned = 0;
    reg [3:0] t_cii_hdr_first_be = 0;
    reg [2:0] t_cii_func_num = 0;
    reg t_cii_wr_vf_active = 0;
    reg [10:0] t_cii_vf_num = 0;
    reg t_cii_wr = 0;
    reg [9:0] t_cii_addr = 0;
    reg [31:0] t_cii_dout = 0;
    reg t_cii_override_en = 0;
    reg [31:0] t_cii_override_din = 0;
    reg t_cii_halt = 0;
    reg t_hip_reconfig_clk = 0;
    reg [20:0] t_hip_reconfig_address = 0;
    reg t_hip_reconfig_read = 0;
    reg [7:0] t_hip_reconfig_readdata = 0;
    reg t_hip_reconfig_readdatavalid = 0;
    reg t_hip_reconfig_write = 0;
    reg [7:0] t_hip_reconfig_writedata = 0;
    reg t_hip_reconfig_waitrequest = 0;
    reg t_prs_event_valid = 0;
    reg [2:0] t_prs_event_func = 0;
    reg [1:0] t_prs_event = 0;
    reg t_vf_err_ur_posted_s0 = 0;
    reg t_vf_err_ur_posted_s1 = 0;
    reg t_vf_err_ur_posted_s2 = 0;
    reg t_vf_err_ur_posted_s3 = 0;
    reg [2:0] t_vf_err_func_num_s0 = 0;
    reg [2:0] t_vf_err_func_num_s1 = 0;
    reg [2:0] t_vf_err_func_num_s2 = 0;
    reg [2:0] t_vf_err_func_num_s3 = 0;
    reg t_vf_err_ca_postedreq_s0 = 0;
    reg t_vf_err_ca_postedreq_s1 = 0;
    reg t_vf_err_ca_postedreq_s2 = 0;
    reg t_vf_err_ca_postedreq_s3 = 0;
    reg [10:0] t_vf_err_vf_num_s0 = 0;
    reg [10:0] t_vf_err_vf_num_s1 = 0;
    reg [10:0] t_vf_err_vf_num_s2 = 0;
    reg [10:0] t_vf_err_vf_num_s3 = 0;
    reg t_vf_err_poisonedwrreq_s0 = 0;
    reg t_vf_err_poisonedwrreq_s1 = 0;
    reg t_vf_err_poisonedwrreq_s2 = 0;
    reg t_vf_err_poisonedwrreq_s3 = 0;
    reg t_vf_err_poisonedcompl_s0 = 0;
    reg t_vf_err_poisonedcompl_s1 = 0;
    reg t_vf_err_poisonedcompl_s2 = 0;
    reg t_vf_err_poisonedcompl_s3 = 0;
    reg [2:0] t_user_vfnonfatalmsg_func_num = 0;
    reg [10:0] t_user_vfnonfatalmsg_vfnum = 0;
    reg t_user_sent_vfnonfatalmsg = 0;
    reg t_vf_err_overflow = 0;
    reg [7:0] t_flr_rcvd_pf = 0;
    reg t_flr_rcvd_vf = 0;
    reg [2:0] t_flr_rcvd_pf_num = 0;
    reg [10:0] t_flr_rcvd_vf_num = 0;
    reg [7:0] t_flr_completed_pf = 0;
    reg t_flr_completed_vf = 0;
    reg [2:0] t_flr_completed_pf_num = 0;
    reg [10:0] t_flr_completed_vf_num = 0;
    reg t_virtio_pcicfg_vfaccess = 0;
    reg [10:0] t_virtio_pcicfg_vfnum = 0;
    reg [2:0] t_virtio_pcicfg_pfnum = 0;
    reg [7:0] t_virtio_pcicfg_bar = 0;
    reg [31:0] t_virtio_pcicfg_length = 0;
    reg [31:0] t_virtio_pcicfg_baroffset = 0;
    reg [31:0] t_virtio_pcicfg_cfgdata = 0;
    reg t_virtio_pcicfg_cfgwr = 0;
    reg t_virtio_pcicfg_cfgrd = 0;
    reg [10:0] t_virtio_pcicfg_appvfnum = 0;
    reg [2:0] t_virtio_pcicfg_apppfnum = 0;
    reg t_virtio_pcicfg_rdack = 0;
    reg [3:0] t_virtio_pcicfg_rdbe = 0;
    reg [31:0] t_virtio_pcicfg_data = 0;
    reg [255:0] s256x1_tx_data = 0;
    reg s256x1_tx_sop = 0;
    reg s256x1_tx_eop = 0;
    reg s256x1_tx_valid = 0;
    reg s256x1_tx_ready = 0;
    reg s256x1_tx_err = 0;
    reg [31:0] s256x1_tx_parity = 0;
    reg s256x1_tx_vf_active = 0;
    reg [255:0] s256x1_rx_data = 0;
    reg s256x1_rx_sop = 0;
    reg s256x1_rx_eop = 0;
    reg s256x1_rx_valid = 0;
    reg s256x1_rx_ready = 0;
    reg [2:0] s256x1_rx_empty = 0;
    reg [2:0] s256x1_rx_bar_range = 0;
    reg [31:0] s256x1_rx_parity = 0;
    reg s256x1_rx_vf_active = 0;
    reg [1:0] s256x1_rx_func_num = 0;
    reg [10:0] s256x1_rx_vf_num = 0;
    reg [255:0] s256x1n_tx_data = 0;
    reg s256x1n_tx_sop = 0;
    reg s256x1n_tx_eop = 0;
    reg s256x1n_tx_valid = 0;
    reg s256x1n_tx_ready = 0;
    reg s256x1n_tx_err = 0;
    reg [255:0] s256x1n_rx_data = 0;
    reg s256x1n_rx_sop = 0;
    reg s256x1n_rx_eop = 0;
    reg s256x1n_rx_valid = 0;
    reg s256x1n_rx_ready = 0;
    reg [2:0] s256x1n_rx_empty = 0;
    reg [2:0] s256x1n_rx_bar_range = 0;
    reg [255:0] s256x2_tx_data = 0;
    reg [1:0] s256x2_tx_sop = 0;
    reg [1:0] s256x2_tx_eop = 0;
    reg [1:0] s256x2_tx_valid = 0;
    reg s256x2_tx_ready = 0;
    reg [1:0] s256x2_tx_err = 0;
    reg [31:0] s256x2_tx_parity = 0;
    reg [1:0] s256x2_tx_vf_active = 0;
    reg [255:0] s256x2_rx_data = 0;
    reg [1:0] s256x2_rx_sop = 0;
    reg [1:0] s256x2_rx_eop = 0;
    reg [1:0] s256x2_rx_valid = 0;
    reg s256x2_rx_ready = 0;
    reg [3:0] s256x2_rx_empty = 0;
    reg [5:0] s256x2_rx_bar_range = 0;
    reg [31:0] s256x2_rx_parity = 0;
    reg [1:0] s256x2_rx_vf_active = 0;
    reg [3:0] s256x2_rx_func_num = 0;
    reg [21:0] s256x2_rx_vf_num = 0;
    reg [255:0] s256x2n_tx_data = 0;
    reg [1:0] s256x2n_tx_sop = 0;
    reg [1:0] s256x2n_tx_eop = 0;
    reg [1:0] s256x2n_tx_valid = 0;
    reg s256x2n_tx_ready = 0;
    reg [1:0] s256x2n_tx_err = 0;
    reg [255:0] s256x2n_rx_data = 0;
    reg [1:0] s256x2n_rx_sop = 0;
    reg [1:0] s256x2n_rx_eop = 0;
    reg [1:0] s256x2n_rx_valid = 0;
    reg s256x2n_rx_ready = 0;
    reg [3:0] s256x2n_rx_empty = 0;
    reg [5:0] s256x2n_rx_bar_range = 0;
    reg [511:0] s512x1_tx_data = 0;
    reg s512x1_tx_sop = 0;
    reg s512x1_tx_eop = 0;
    reg s512x1_tx_valid = 0;
    reg s512x1_tx_ready = 0;
    reg s512x1_tx_err = 0;
    reg [63:0] s512x1_tx_parity = 0;
    reg s512x1_tx_vf_active = 0;
    reg [511:0] s512x1_rx_data = 0;
    reg s512x1_rx_sop = 0;
    reg s512x1_rx_eop = 0;
    reg s512x1_rx_valid = 0;
    reg s512x1_rx_ready = 0;
    reg [3:0] s512x1_rx_empty = 0;
    reg [2:0] s512x1_rx_bar_range = 0;
    reg [63:0] s512x1_rx_parity = 0;
    reg s512x1_rx_vf_active = 0;
    reg [1:0] s512x1_rx_func_num = 0;
    reg [10:0] s512x1_rx_vf_num = 0;
    reg [511:0] s512x1n_tx_data = 0;
    reg s512x1n_tx_sop = 0;
    reg s512x1n_tx_eop = 0;
    reg s512x1n_tx_valid = 0;
    reg s512x1n_tx_ready = 0;
    reg s512x1n_tx_err = 0;
    reg [511:0] s512x1n_rx_data = 0;
    reg s512x1n_rx_sop = 0;
    reg s512x1n_rx_eop = 0;
    reg s512x1n_rx_valid = 0;
    reg s512x1n_rx_ready = 0;
    reg [3:0] s512x1n_rx_empty = 0;
    reg [2:0] s512x1n_rx_bar_range = 0;
    reg [511:0] s512x2_tx_data = 0;
    reg [1:0] s512x2_tx_sop = 0;
    reg [1:0] s512x2_tx_eop = 0;
    reg [1:0] s512x2_tx_valid = 0;
    reg s512x2_tx_ready = 0;
    reg [1:0] s512x2_tx_err = 0;
    reg [63:0] s512x2_tx_parity = 0;
    reg [1:0] s512x2_tx_vf_active = 0;
    reg [511:0] s512x2_rx_data = 0;
    reg [1:0] s512x2_rx_sop = 0;
    reg [1:0] s512x2_rx_eop = 0;
    reg [1:0] s512x2_rx_valid = 0;
    reg s512x2_rx_ready = 0;
    reg [5:0] s512x2_rx_empty = 0;
    reg [5:0] s512x2_rx_bar_range = 0;
    reg [63:0] s512x2_rx_parity = 0;
    reg [1:0] s512x2_rx_vf_active = 0;
    reg [3:0] s512x2_rx_func_num = 0;
    reg [21:0] s512x2_rx_vf_num = 0;
    reg [511:0] s512x2n_tx_data = 0;
    reg [1:0] s512x2n_tx_sop = 0;
    reg [1:0] s512x2n_tx_eop = 0;
    reg [1:0] s512x2n_tx_valid = 0;
    reg s512x2n_tx_ready = 0;
    reg [1:0] s512x2n_tx_err = 0;
    reg [511:0] s512x2n_rx_data = 0;
    reg [1:0] s512x2n_rx_sop = 0;
    reg [1:0] s512x2n_rx_eop = 0;
    reg [1:0] s512x2n_rx_valid = 0;
    reg s512x2n_rx_ready = 0;
    reg [5:0] s512x2n_rx_empty = 0;
    reg [5:0] s512x2n_rx_bar_range = 0;
    reg [511:0] s512x4_tx_data = 0;
    reg [3:0] s512x4_tx_sop = 0;
    reg [3:0] s512x4_tx_eop = 0;
    reg [3:0] s512x4_tx_valid = 0;
    reg s512x4_tx_ready = 0;
    reg [3:0] s512x4_tx_err = 0;
    reg [63:0] s512x4_tx_parity = 0;
    reg [3:0] s512x4_tx_vf_active = 0;
    reg [511:0] s512x4_rx_data = 0;
    reg [3:0] s512x4_rx_sop = 0;
    reg [3:0] s512x4_rx_eop = 0;
    reg [3:0] s512x4_rx_valid = 0;
    reg s512x4_rx_ready = 0;
    reg [7:0] s512x4_rx_empty = 0;
    reg [11:0] s512x4_rx_bar_range = 0;
    reg [63:0] s512x4_rx_parity = 0;
    reg [3:0] s512x4_rx_vf_active = 0;
    reg [7:0] s512x4_rx_func_num = 0;
    reg [43:0] s512x4_rx_vf_num = 0;
    reg [511:0] s512x4n_tx_data = 0;
    reg [3:0] s512x4n_tx_sop = 0;
    reg [3:0] s512x4n_tx_eop = 0;
    reg [3:0] s512x4n_tx_valid = 0;
    reg s512x4n_tx_ready = 0;
    reg [3:0] s512x4n_tx_err = 0;
    reg [511:0] s512x4n_rx_data = 0;
    reg [3:0] s512x4n_rx_sop = 0;
    reg [3:0] s512x4n_rx_eop = 0;
    reg [3:0] s512x4n_rx_valid = 0;
    reg s512x4n_rx_ready = 0;
    reg [7:0] s512x4n_rx_empty = 0;
    reg [11:0] s512x4n_rx_bar_range = 0;
    reg [127:0] t128x1_tx_data = 0;
    reg t128x1_tx_sop = 0;
    reg t128x1_tx_eop = 0;
    reg t128x1_tx_valid = 0;
    reg t128x1_tx_ready = 0;
    reg t128x1_tx_err = 0;
    reg [127:0] t128x1_tx_hdr = 0;
    reg [31:0] t128x1_tx_tlp_prfx = 0;
    reg [15:0] t128x1_tx_data_par = 0;
    reg [15:0] t128x1_tx_hdr_par = 0;
    reg [3:0] t128x1_tx_tlp_prfx_par = 0;
    reg [127:0] t128x1_rx_data = 0;
    reg t128x1_rx_sop = 0;
    reg t128x1_rx_eop = 0;
    reg t128x1_rx_valid = 0;
    reg t128x1_rx_ready = 0;
    reg [1:0] t128x1_rx_empty = 0;
    reg [2:0] t128x1_rx_bar_range = 0;
    reg [127:0] t128x1_rx_hdr = 0;
    reg [31:0] t128x1_rx_tlp_prfx = 0;
    reg t128x1_rx_tlp_abort = 0;
    reg [15:0] t128x1_rx_data_par = 0;
    reg [15:0] t128x1_rx_hdr_par = 0;
    reg [3:0] t128x1_rx_tlp_prfx_par = 0;
    reg t128x1_rx_vf_active = 0;
    reg [2:0] t128x1_rx_func_num = 0;
    reg [10:0] t128x1_rx_vf_num = 0;
    reg [127:0] t128x1n_tx_data = 0;
    reg t128x1n_tx_sop = 0;
    reg t128x1n_tx_eop = 0;
    reg t128x1n_tx_valid = 0;
    reg t128x1n_tx_ready = 0;
    reg t128x1n_tx_err = 0;
    reg [127:0] t128x1n_tx_hdr = 0;
    reg [31:0] t128x1n_tx_tlp_prfx = 0;
    reg [127:0] t128x1n_rx_data = 0;
    reg t128x1n_rx_sop = 0;
    reg t128x1n_rx_eop = 0;
    reg t128x1n_rx_valid = 0;
    reg t128x1n_rx_ready = 0;
    reg [1:0] t128x1n_rx_empty = 0;
    reg [2:0] t128x1n_rx_bar_range = 0;
    reg [127:0] t128x1n_rx_hdr = 0;
    reg [31:0] t128x1n_rx_tlp_prfx = 0;
    reg t128x1n_rx_tlp_abort = 0;
    reg [255:0] t256x1_tx_data = 0;
    reg t256x1_tx_sop = 0;
    reg t256x1_tx_eop = 0;
    reg t256x1_tx_valid = 0;
    reg t256x1_tx_ready = 0;
    reg t256x1_tx_err = 0;
    reg [127:0] t256x1_tx_hdr = 0;
    reg [31:0] t256x1_tx_tlp_prfx = 0;
    reg [31:0] t256x1_tx_data_par = 0;
    reg [15:0] t256x1_tx_hdr_par = 0;
    reg [3:0] t256x1_tx_tlp_prfx_par = 0;
    reg [255:0] t256x1_rx_data = 0;
    reg t256x1_rx_sop = 0;
    reg t256x1_rx_eop = 0;
    reg t256x1_rx_valid = 0;
    reg t256x1_rx_ready = 0;
    reg [2:0] t256x1_rx_empty = 0;
    reg [2:0] t256x1_rx_bar_range = 0;
    reg [127:0] t256x1_rx_hdr = 0;
    reg [31:0] t256x1_rx_tlp_prfx = 0;
    reg t256x1_rx_tlp_abort = 0;
    reg [31:0] t256x1_rx_data_par = 0;
    reg [15:0] t256x1_rx_hdr_par = 0;
    reg [3:0] t256x1_rx_tlp_prfx_par = 0;
    reg t256x1_rx_vf_active = 0;
    reg [2:0] t256x1_rx_func_num = 0;
    reg [10:0] t256x1_rx_vf_num = 0;
    reg [255:0] t256x1n_tx_data = 0;
    reg t256x1n_tx_sop = 0;
    reg t256x1n_tx_eop = 0;
    reg t256x1n_tx_valid = 0;
    reg t256x1n_tx_ready = 0;
    reg t256x1n_tx_err = 0;
    reg [127:0] t256x1n_tx_hdr = 0;
    reg [31:0] t256x1n_tx_tlp_prfx = 0;
    reg [255:0] t256x1n_rx_data = 0;
    reg t256x1n_rx_sop = 0;
    reg t256x1n_rx_eop = 0;
    reg t256x1n_rx_valid = 0;
    reg t256x1n_rx_ready = 0;
    reg [2:0] t256x1n_rx_empty = 0;
    reg [2:0] t256x1n_rx_bar_range = 0;
    reg [127:0] t256x1n_rx_hdr = 0;
    reg [31:0] t256x1n_rx_tlp_prfx = 0;
    reg t256x1n_rx_tlp_abort = 0;
    reg [255:0] t256x2_tx_data = 0;
    reg [1:0] t256x2_tx_sop = 0;
    reg [1:0] t256x2_tx_eop = 0;
    reg [1:0] t256x2_tx_valid = 0;
    reg t256x2_tx_ready = 0;
    reg [1:0] t256x2_tx_err = 0;
    reg [255:0] t256x2_tx_hdr = 0;
    reg [63:0] t256x2_tx_tlp_prfx = 0;
    reg [31:0] t256x2_tx_data_par = 0;
    reg [31:0] t256x2_tx_hdr_par = 0;
    reg [7:0] t256x2_tx_tlp_prfx_par = 0;
    reg [255:0] t256x2_rx_data = 0;
    reg [1:0] t256x2_rx_sop = 0;
    reg [1:0] t256x2_rx_eop = 0;
    reg [1:0] t256x2_rx_valid = 0;
    reg t256x2_rx_ready = 0;
    reg [3:0] t256x2_rx_empty = 0;
    reg [5:0] t256x2_rx_bar_range = 0;
    reg [255:0] t256x2_rx_hdr = 0;
    reg [63:0] t256x2_rx_tlp_prfx = 0;
    reg [1:0] t256x2_rx_tlp_abort = 0;
    reg [31:0] t256x2_rx_data_par = 0;
    reg [31:0] t256x2_rx_hdr_par = 0;
    reg [7:0] t256x2_rx_tlp_prfx_par = 0;
    reg [1:0] t256x2_rx_vf_active = 0;
    reg [5:0] t256x2_rx_func_num = 0;
    reg [21:0] t256x2_rx_vf_num = 0;
    reg [255:0] t256x2n_tx_data = 0;
    reg [1:0] t256x2n_tx_sop = 0;
    reg [1:0] t256x2n_tx_eop = 0;
    reg [1:0] t256x2n_tx_valid = 0;
    reg t256x2n_tx_ready = 0;
    reg [1:0] t256x2n_tx_err = 0;
    reg [255:0] t256x2n_tx_hdr = 0;
    reg [63:0] t256x2n_tx_tlp_prfx = 0;
    reg [255:0] t256x2n_rx_data = 0;
    reg [1:0] t256x2n_rx_sop = 0;
    reg [1:0] t256x2n_rx_eop = 0;
    reg [1:0] t256x2n_rx_valid = 0;
    reg t256x2n_rx_ready = 0;
    reg [3:0] t256x2n_rx_empty = 0;
    reg [5:0] t256x2n_rx_bar_range = 0;
    reg [255:0] t256x2n_rx_hdr = 0;
    reg [63:0] t256x2n_rx_tlp_prfx = 0;
    reg [1:0] t256x2n_rx_tlp_abort = 0;
    reg [511:0] t512x1_tx_data = 0;
    reg t512x1_tx_sop = 0;
    reg t512x1_tx_eop = 0;
    reg t512x1_tx_valid = 0;
    reg t512x1_tx_ready = 0;
    reg t512x1_tx_err = 0;
    reg [127:0] t512x1_tx_hdr = 0;
    reg [31:0] t512x1_tx_tlp_prfx = 0;
    reg [63:0] t512x1_tx_data_par = 0;
    reg [15:0] t512x1_tx_hdr_par = 0;
    reg [3:0] t512x1_tx_tlp_prfx_par = 0;
    reg [511:0] t512x1_rx_data = 0;
    reg t512x1_rx_sop = 0;
    reg t512x1_rx_eop = 0;
    reg t512x1_rx_valid = 0;
    reg t512x1_rx_ready = 0;
    reg [3:0] t512x1_rx_empty = 0;
    reg [2:0] t512x1_rx_bar_range = 0;
    reg [127:0] t512x1_rx_hdr = 0;
    reg [31:0] t512x1_rx_tlp_prfx = 0;
    reg t512x1_rx_tlp_abort = 0;
    reg [63:0] t512x1_rx_data_par = 0;
    reg [15:0] t512x1_rx_hdr_par = 0;
    reg [3:0] t512x1_rx_tlp_prfx_par = 0;
    reg t512x1_rx_vf_active = 0;
    reg [2:0] t512x1_rx_func_num = 0;
    reg [10:0] t512x1_rx_vf_num = 0;
    reg [511:0] t512x1n_tx_data = 0;
    reg t512x1n_tx_sop = 0;
    reg t512x1n_tx_eop = 0;
    reg t512x1n_tx_valid = 0;
    reg t512x1n_tx_ready = 0;
    reg t512x1n_tx_err = 0;
    reg [127:0] t512x1n_tx_hdr = 0;
    reg [31:0] t512x1n_tx_tlp_prfx = 0;
    reg [511:0] t512x1n_rx_data = 0;
    reg t512x1n_rx_sop = 0;
    reg t512x1n_rx_eop = 0;
    reg t512x1n_rx_valid = 0;
    reg t512x1n_rx_ready = 0;
    reg [3:0] t512x1n_rx_empty = 0;
    reg [2:0] t512x1n_rx_bar_range = 0;
    reg [127:0] t512x1n_rx_hdr = 0;
    reg [31:0] t512x1n_rx_tlp_prfx = 0;
    reg t512x1n_rx_tlp_abort = 0;
    reg [511:0] t512x2_tx_data = 0;
    reg [1:0] t512x2_tx_sop = 0;
    reg [1:0] t512x2_tx_eop = 0;
    reg [1:0] t512x2_tx_valid = 0;
    reg t512x2_tx_ready = 0;
    reg [1:0] t512x2_tx_err = 0;
    reg [255:0] t512x2_tx_hdr = 0;
    reg [63:0] t512x2_tx_tlp_prfx = 0;
    reg [63:0] t512x2_tx_data_par = 0;
    reg [31:0] t512x2_tx_hdr_par = 0;
    reg [7:0] t512x2_tx_tlp_prfx_par = 0;
    reg [511:0] t512x2_rx_data = 0;
    reg [1:0] t512x2_rx_sop = 0;
    reg [1:0] t512x2_rx_eop = 0;
    reg [1:0] t512x2_rx_valid = 0;
    reg t512x2_rx_ready = 0;
    reg [5:0] t512x2_rx_empty = 0;
    reg [5:0] t512x2_rx_bar_range = 0;
    reg [255:0] t512x2_rx_hdr = 0;
    reg [63:0] t512x2_rx_tlp_prfx = 0;
    reg [1:0] t512x2_rx_tlp_abort = 0;
    reg [63:0] t512x2_rx_data_par = 0;
    reg [31:0] t512x2_rx_hdr_par = 0;
    reg [7:0] t512x2_rx_tlp_prfx_par = 0;
    reg [1:0] t512x2_rx_vf_active = 0;
    reg [5:0] t512x2_rx_func_num = 0;
    reg [21:0] t512x2_rx_vf_num = 0;
    reg [511:0] t512x2n_tx_data = 0;
    reg [1:0] t512x2n_tx_sop = 0;
    reg [1:0] t512x2n_tx_eop = 0;
    reg [1:0] t512x2n_tx_valid = 0;
    reg t512x2n_tx_ready = 0;
    reg [1:0] t512x2n_tx_err = 0;
    reg [255:0] t512x2n_tx_hdr = 0;
    reg [63:0] t512x2n_tx_tlp_prfx = 0;
    reg [511:0] t512x2n_rx_data = 0;
    reg [1:0] t512x2n_rx_sop = 0;
    reg [1:0] t512x2n_rx_eop = 0;
    reg [1:0] t512x2n_rx_valid = 0;
    reg t512x2n_rx_ready = 0;
    reg [5:0] t512x2n_rx_empty = 0;
    reg [5:0] t512x2n_rx_bar_range = 0;
    reg [255:0] t512x2n_rx_hdr = 0;
    reg [63:0] t512x2n_rx_tlp_prfx = 0;
    reg [1:0] t512x2n_rx_tlp_abort = 0;
    reg [511:0] t512x4_tx_data = 0;
    reg [3:0] t512x4_tx_sop = 0;
    reg [3:0] t512x4_tx_eop = 0;
    reg [3:0] t512x4_tx_valid = 0;
    reg t512x4_tx_ready = 0;
    reg [3:0] t512x4_tx_err = 0;
    reg [511:0] t512x4_tx_hdr = 0;
    reg [127:0] t512x4_tx_tlp_prfx = 0;
    reg [63:0] t512x4_tx_data_par = 0;
    reg [63:0] t512x4_tx_hdr_par = 0;
    reg [15:0] t512x4_tx_tlp_prfx_par = 0;
    reg [511:0] t512x4_rx_data = 0;
    reg [3:0] t512x4_rx_sop = 0;
    reg [3:0] t512x4_rx_eop = 0;
    reg [3:0] t512x4_rx_valid = 0;
    reg t512x4_rx_ready = 0;
    reg [7:0] t512x4_rx_empty = 0;
    reg [11:0] t512x4_rx_bar_range = 0;
    reg [511:0] t512x4_rx_hdr = 0;
    reg [127:0] t512x4_rx_tlp_prfx = 0;
    reg [3:0] t512x4_rx_tlp_abort = 0;
    reg [63:0] t512x4_rx_data_par = 0;
    reg [63:0] t512x4_rx_hdr_par = 0;
    reg [15:0] t512x4_rx_tlp_prfx_par = 0;
    reg [3:0] t512x4_rx_vf_active = 0;
    reg [11:0] t512x4_rx_func_num = 0;
    reg [43:0] t512x4_rx_vf_num = 0;
    reg [511:0] t512x4n_tx_data = 0;
    reg [3:0] t512x4n_tx_sop = 0;
    reg [3:0] t512x4n_tx_eop = 0;
    reg [3:0] t512x4n_tx_valid = 0;
    reg t512x4n_tx_ready = 0;
    reg [3:0] t512x4n_tx_err = 0;
    reg [511:0] t512x4n_tx_hdr = 0;
    reg [127:0] t512x4n_tx_tlp_prfx = 0;
    reg [511:0] t512x4n_rx_data = 0;
    reg [3:0] t512x4n_rx_sop = 0;
    reg [3:0] t512x4n_rx_eop = 0;
    reg [3:0] t512x4n_rx_valid = 0;
    reg t512x4n_rx_ready = 0;
    reg [7:0] t512x4n_rx_empty = 0;
    reg [11:0] t512x4n_rx_bar_range = 0;
    reg [511:0] t512x4n_rx_hdr = 0;
    reg [127:0] t512x4n_rx_tlp_prfx = 0;
    reg [3:0] t512x4n_rx_tlp_abort = 0;
endmodule
