`timescale 1ns / 1ps
module vf_top;
endmodule
