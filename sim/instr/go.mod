module verifinstr

go 1.22
