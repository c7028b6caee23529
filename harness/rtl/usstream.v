`timescale 1ns / 1ps
// one set of stream signals for every interface and width of the UltraScale(+) models
module vf_top;
    reg clk = 0;
    reg [63:0] rq64_60_tdata = 0; reg [1:0] rq64_60_tkeep = 0; reg [59:0] rq64_60_tuser = 0; reg rq64_60_tvalid = 0, rq64_60_tready = 0, rq64_60_tlast = 0;
    reg [63:0] rq64_62_tdata = 0; reg [1:0] rq64_62_tkeep = 0; reg [61:0] rq64_62_tuser = 0; reg rq64_62_tvalid = 0, rq64_62_tready = 0, rq64_62_tlast = 0;
    reg [127:0] rq128_62_tdata = 0; reg [3:0] rq128_62_tkeep = 0; reg [61:0] rq128_62_tuser = 0; reg rq128_62_tvalid = 0, rq128_62_tready = 0, rq128_62_tlast = 0;
    reg [255:0] rq256_62_tdata = 0; reg [7:0] rq256_62_tkeep = 0; reg [61:0] rq256_62_tuser = 0; reg rq256_62_tvalid = 0, rq256_62_tready = 0, rq256_62_tlast = 0;
    reg [255:0] rq256_60_tdata = 0; reg [7:0] rq256_60_tkeep = 0; reg [59:0] rq256_60_tuser = 0; reg rq256_60_tvalid = 0, rq256_60_tready = 0, rq256_60_tlast = 0;
    reg [511:0] rq512_137_tdata = 0; reg [15:0] rq512_137_tkeep = 0; reg [136:0] rq512_137_tuser = 0; reg rq512_137_tvalid = 0, rq512_137_tready = 0, rq512_137_tlast = 0;
    reg [63:0] rc64_75_tdata = 0; reg [1:0] rc64_75_tkeep = 0; reg [74:0] rc64_75_tuser = 0; reg rc64_75_tvalid = 0, rc64_75_tready = 0, rc64_75_tlast = 0;
    reg [127:0] rc128_75_tdata = 0; reg [3:0] rc128_75_tkeep = 0; reg [74:0] rc128_75_tuser = 0; reg rc128_75_tvalid = 0, rc128_75_tready = 0, rc128_75_tlast = 0;
    reg [255:0] rc256_75_tdata = 0; reg [7:0] rc256_75_tkeep = 0; reg [74:0] rc256_75_tuser = 0; reg rc256_75_tvalid = 0, rc256_75_tready = 0, rc256_75_tlast = 0;
    reg [511:0] rc512_161_tdata = 0; reg [15:0] rc512_161_tkeep = 0; reg [160:0] rc512_161_tuser = 0; reg rc512_161_tvalid = 0, rc512_161_tready = 0, rc512_161_tlast = 0;
    reg [63:0] cq64_85_tdata = 0; reg [1:0] cq64_85_tkeep = 0; reg [84:0] cq64_85_tuser = 0; reg cq64_85_tvalid = 0, cq64_85_tready = 0, cq64_85_tlast = 0;
    reg [63:0] cq64_88_tdata = 0; reg [1:0] cq64_88_tkeep = 0; reg [87:0] cq64_88_tuser = 0; reg cq64_88_tvalid = 0, cq64_88_tready = 0, cq64_88_tlast = 0;
    reg [127:0] cq128_88_tdata = 0; reg [3:0] cq128_88_tkeep = 0; reg [87:0] cq128_88_tuser = 0; reg cq128_88_tvalid = 0, cq128_88_tready = 0, cq128_88_tlast = 0;
    reg [255:0] cq256_85_tdata = 0; reg [7:0] cq256_85_tkeep = 0; reg [84:0] cq256_85_tuser = 0; reg cq256_85_tvalid = 0, cq256_85_tready = 0, cq256_85_tlast = 0;
    reg [255:0] cq256_88_tdata = 0; reg [7:0] cq256_88_tkeep = 0; reg [87:0] cq256_88_tuser = 0; reg cq256_88_tvalid = 0, cq256_88_tready = 0, cq256_88_tlast = 0;
    reg [511:0] cq512_183_tdata = 0; reg [15:0] cq512_183_tkeep = 0; reg [182:0] cq512_183_tuser = 0; reg cq512_183_tvalid = 0, cq512_183_tready = 0, cq512_183_tlast = 0;
    reg [63:0] cc64_33_tdata = 0; reg [1:0] cc64_33_tkeep = 0; reg [32:0] cc64_33_tuser = 0; reg cc64_33_tvalid = 0, cc64_33_tready = 0, cc64_33_tlast = 0;
    reg [127:0] cc128_33_tdata = 0; reg [3:0] cc128_33_tkeep = 0; reg [32:0] cc128_33_tuser = 0; reg cc128_33_tvalid = 0, cc128_33_tready = 0, cc128_33_tlast = 0;
    reg [255:0] cc256_33_tdata = 0; reg [7:0] cc256_33_tkeep = 0; reg [32:0] cc256_33_tuser = 0; reg cc256_33_tvalid = 0, cc256_33_tready = 0, cc256_33_tlast = 0;
    reg [511:0] cc512_81_tdata = 0; reg [15:0] cc512_81_tkeep = 0; reg [80:0] cc512_81_tuser = 0; reg cc512_81_tvalid = 0, cc512_81_tready = 0, cc512_81_tlast = 0;
endmodule
